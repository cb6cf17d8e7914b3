package harness

import (
	"fmt"
	"iter"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"

	"pgvmc/mcsched"
	"pgvmc/ref"
	"pgvmc/vals"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// dump renders everything a message holds, nil and empty told apart.
func dump(m interface{}) string {
	var b strings.Builder
	var rec func(v reflect.Value, d int)
	rec = func(v reflect.Value, d int) {
		if d > 20 {
			return
		}
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			b.WriteString("&")
			rec(v.Elem(), d+1)
		case reflect.Struct:
			b.WriteString("{")
			t := v.Type()
			for i := 0; i < v.NumField(); i++ {
				if t.Field(i).PkgPath == "" { // exported
					b.WriteString(t.Field(i).Name + ":")
					rec(v.Field(i), d+1)
					b.WriteString(" ")
				} else if t.Field(i).Name == "unknownFields" {
					fmt.Fprintf(&b, "u%x", v.Field(i).Bytes())
				}
			}
			b.WriteString("}")
		case reflect.Slice:
			if v.IsNil() {
				b.WriteString("nilslice")
				return
			}
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i), d+1)
				b.WriteString(",")
			}
			b.WriteString("]")
		case reflect.Map:
			if v.IsNil() {
				b.WriteString("nilmap")
				return
			}
			var ks []string
			for _, k := range v.MapKeys() {
				var kb strings.Builder
				old := b
				b = strings.Builder{}
				rec(v.MapIndex(k), d+1)
				kb.WriteString(fmt.Sprint(k.Interface()) + "=" + b.String())
				b = old
				ks = append(ks, kb.String())
			}
			sort.Strings(ks)
			b.WriteString("map" + strings.Join(ks, ","))
		default:
			fmt.Fprintf(&b, "%v", v)
		}
	}
	rec(reflect.ValueOf(m), 0)
	return b.String()
}

// result canonicalises an error, whatever order a map was walked in.
func result(err error, panicked string) string {
	if panicked != "" {
		return panicked
	}
	if err == nil {
		return "nil"
	}
	ls, multi := leaves(err)
	var out []string
	for _, e := range ls {
		v, ok := e.(violErr)
		if !ok {
			out = append(out, e.Error())
			continue
		}
		s := fmt.Sprintf("%T %s %s %v", e, v.Field(), v.Reason(), v.Key())
		if c := v.Cause(); c != nil {
			s += " <" + result(c, "") + ">"
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return fmt.Sprint(multi) + strings.Join(out, ";")
}

// pool picks contents with different outcomes whose Validate result does not
// depend on the order a map is walked in.
func pool(mt protoreflect.MessageType, c *vals.Cfg, n int) []protoreflect.Message {
	seen := map[string]bool{}
	var ok, bad []protoreflect.Message
	add := func(m protoreflect.Message) {
		vs := ref.Check(m, ref.Opts{Now: c.Now})
		if (len(vs) > 1 || noBigMaps) && hasBigMap(m) {
			return
		}
		k := outcomeKey(vs)
		if seen[k] {
			return
		}
		seen[k] = true
		if len(vs) == 0 {
			ok = append(ok, m)
		} else {
			bad = append(bad, m)
		}
	}
	ms := vals.Messages(mt, c)
	// the richest messages first: they reach most of the code
	sort.SliceStable(ms, func(i, j int) bool { return proto.Size(ms[i].Interface()) > proto.Size(ms[j].Interface()) })
	if len(ms) > 400 {
		ms = append(append([]protoreflect.Message{}, ms[:200]...), ms[len(ms)-200:]...)
	}
	for _, m := range ms {
		add(m)
	}
	out := ok
	for _, m := range bad {
		if len(out) < n {
			out = append(out, m)
		}
	}
	return out
}

// noBigMaps keeps maps of several pairs out of the pool: the order they are
// walked in differs from run to run, so a schedule could not be replayed.
var noBigMaps = false

func hasBigMap(m protoreflect.Message) bool {
	big := false
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
			if v.Map().Len() > 1 {
				big = true
			}
			if fd.MapValue().Message() != nil {
				v.Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
					if v.Message().IsValid() && hasBigMap(v.Message()) {
						big = true
					}
					return true
				})
			}
		case fd.IsList() && fd.Message() != nil:
			for i := 0; i < v.List().Len(); i++ {
				if e := v.List().Get(i).Message(); e.IsValid() && hasBigMap(e) {
					big = true
				}
			}
		case fd.Message() != nil && !fd.IsList():
			if v.Message().IsValid() && hasBigMap(v.Message()) {
				big = true
			}
		}
		return true
	})
	return big
}

// assign makes *dst hold exactly src's contents (sharing them).
func assign(dst, src protoreflect.Message) {
	proto.Reset(dst.Interface())
	d, s := reflect.ValueOf(dst.Interface()).Elem(), reflect.ValueOf(src.Interface()).Elem()
	for i := 0; i < d.NumField(); i++ {
		if d.Type().Field(i).PkgPath == "" {
			d.Field(i).Set(s.Field(i))
		}
	}
}

func historyMode(mts []protoreflect.MessageType, r *Report, c *vals.Cfg) {
	switch os.Getenv("PGVMC_PART") {
	case "schedule":
		schedules(mts, r, c)
		return
	case "race":
		race(mts, r, c)
		return
	}
	depth := 3
	fmt.Sscan(env("PGVMC_DEPTH", "3"), &depth)
	c.MaxMsgs = 600
	deadline := 1e9
	fmt.Sscan(env("PGVMC_DEADLINE", "1e9"), &deadline)
	var wg sync.WaitGroup
	work := make(chan protoreflect.MessageType)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for mt := range work {
				if wall()-started > deadline {
					r.mu.Lock()
					r.Skipped++
					r.mu.Unlock()
					continue
				}
				histories(mt, r, c, depth)
			}
		}()
	}
	for _, mt := range mts {
		if !ignored(mt.Descriptor()) {
			work <- mt
		}
	}
	close(work)
	wg.Wait()
}

// histories: every sequence of validate / validateAll / rewrite operations on
// two live messages whose contents range over the pool.
func histories(mt protoreflect.MessageType, r *Report, c *vals.Cfg, depth int) {
	md := mt.Descriptor()
	name := string(md.FullName())
	ps := pool(mt, c, 3)
	if len(ps) == 0 {
		return
	}
	if len(ps) > 3 {
		ps = ps[:3]
	}
	l := &local{outcomes: map[string]bool{}}
	type exp struct{ one, all, dump string }
	var want []exp
	for _, p := range ps {
		x, ok := p.Interface().(validator)
		if !ok {
			return
		}
		before := dump(p.Interface())
		vs := ref.Check(p, ref.Opts{Now: c.Now})
		e1, p1 := call(x.Validate)
		e2, p2 := call(x.ValidateAll)
		want = append(want, exp{result(e1, p1), result(e2, p2), before})
		if after := dump(p.Interface()); after != before {
			r.violate(Violation{Msg: name, Rules: rulesText(md), Value: before, Got: after, Want: "an unchanged message", Kind: "purity"})
			return
		}
		if (e1 == nil) != (len(vs) == 0) || (e2 == nil) != (len(vs) == 0) {
			// the verdict itself is a matter of C01..C08; here only its stability
			r.mu.Lock()
			r.Extra["single_call_differs_from_model"]++
			r.mu.Unlock()
		}
	}
	live := []protoreflect.Message{mt.New(), mt.New()}
	holds := []int{0, len(ps) - 1}
	reset := func() {
		holds = []int{0, len(ps) - 1}
		for i := range live {
			assign(live[i], ps[holds[i]])
		}
	}
	nops := 2 * (2 + len(ps))
	seq := make([]int, 0, depth)
	states := map[string]bool{}
	var do func() bool
	opName := func(o int) string {
		i, k := o/(2+len(ps)), o%(2+len(ps))
		switch k {
		case 0:
			return fmt.Sprintf("Validate(m%d)", i)
		case 1:
			return fmt.Sprintf("ValidateAll(m%d)", i)
		}
		return fmt.Sprintf("m%d = content%d", i, k-2)
	}
	do = func() bool {
		reset()
		l.values++
		for n, o := range seq {
			i, k := o/(2+len(ps)), o%(2+len(ps))
			switch k {
			case 0, 1:
				x := live[i].Interface().(validator)
				fn, w := x.Validate, want[holds[i]].one
				if k == 1 {
					fn, w = x.ValidateAll, want[holds[i]].all
				}
				err, p := call(fn)
				l.calls++
				if g := result(err, p); g != w {
					var h []string
					for _, o := range seq[:n+1] {
						h = append(h, opName(o))
					}
					r.violate(Violation{Msg: name, Rules: rulesText(md), Value: strings.Join(h, ", ") + " over {" + show(ps[holds[i]].Interface()) + "}", Got: g, Want: w, Kind: "history"})
					return false
				}
			default:
				holds[i] = k - 2
				assign(live[i], ps[k-2])
			}
			states[fmt.Sprint(holds, seq[:n+1])] = true
		}
		if len(seq) == depth {
			for i := range live {
				if d := dump(live[i].Interface()); d != want[holds[i]].dump {
					r.violate(Violation{Msg: name, Rules: rulesText(md), Value: want[holds[i]].dump, Got: d, Want: "an unchanged message", Kind: "purity"})
					return false
				}
			}
		}
		return true
	}
	var rec func() bool
	rec = func() bool {
		if len(seq) == depth {
			return do()
		}
		for o := 0; o < nops; o++ {
			seq = append(seq, o)
			ok := rec()
			seq = seq[:len(seq)-1]
			if !ok {
				return false
			}
		}
		return true
	}
	rec()
	for _, w := range want {
		l.outcomes[name+w.all] = true
	}
	l.invalid = len(states)
	l.sample = name + ": all " + fmt.Sprint(l.values) + " histories of " + fmt.Sprint(depth) + " operations over {" + show(ps[0].Interface()) + "}, {" + show(ps[len(ps)-1].Interface()) + "}"
	l.add(r)
	r.mu.Lock()
	r.Types++
	r.mu.Unlock()
}

// ---- schedules ----

type thread struct {
	next func() (struct{}, bool)
	stop func()
	done bool
	res  string
}

var curYield func(struct{}) bool

var diverged int

func spawn(f func() error) *thread {
	t := &thread{}
	var yield func(struct{}) bool
	next, stop := iter.Pull(func(y func(struct{}) bool) {
		yield = y
		curYield = yield
		err, p := call(f)
		t.res = result(err, p)
	})
	t.next = func() (struct{}, bool) {
		if yield != nil {
			curYield = yield
		}
		return next()
	}
	t.stop = stop
	return t
}

// explore runs every interleaving of the bodies with at most bound preemptions.
// check judges the results of one complete execution; it returns false to stop.
func explore(bodies func() []func() error, bound int, maxRuns int, check func(res []string, sched []int) bool) (runs, steps int, capped bool) {
	var prefix []int
	type job struct{ prefix []int }
	stack := []job{{nil}}
	for len(stack) > 0 {
		j := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		prefix = j.prefix
		if maxRuns > 0 && runs >= maxRuns {
			return runs, steps, true
		}
		var ts []*thread
		for _, b := range bodies() {
			ts = append(ts, spawn(b))
		}
		mcsched.Hook = func() { curYield(struct{}{}) }
		cur, pre := -1, 0
		var sched []int
		for {
			var en []int
			if cur >= 0 && !ts[cur].done {
				en = append(en, cur)
			}
			for i, t := range ts {
				if !t.done && i != cur {
					en = append(en, i)
				}
			}
			if len(en) == 0 {
				break
			}
			pick := 0
			at := len(sched)
			if at < len(prefix) {
				pick = prefix[at]
				if pick >= len(en) {
					// the code took another path than when this point was recorded
					// (a lazily filled table, say): finish without a choice, judge it anyway
					pick = 0
					diverged++
				}
			} else {
				// branch: every other enabled thread, if the bound allows
				cost := 0
				if cur >= 0 && !ts[cur].done {
					cost = 1
				}
				if pre+cost <= bound {
					for alt := 1; alt < len(en); alt++ {
						stack = append(stack, job{append(append([]int{}, sched...), alt)})
					}
				}
			}
			if pick != 0 && cur >= 0 && !ts[cur].done {
				pre++
			}
			sched = append(sched, pick)
			cur = en[pick]
			steps++
			if _, more := ts[cur].next(); !more {
				ts[cur].done = true
			}
		}
		mcsched.Hook = nil
		runs++
		var res []string
		for _, t := range ts {
			res = append(res, t.res)
			t.stop()
		}
		if !check(res, sched) {
			return runs, steps, false
		}
	}
	return runs, steps, false
}

func schedules(mts []protoreflect.MessageType, r *Report, c *vals.Cfg) {
	shard, shards, bound, maxRuns := 0, 1, 2, 4000
	fmt.Sscan(env("PGVMC_SHARD", "0"), &shard)
	fmt.Sscan(env("PGVMC_SHARDS", "1"), &shards)
	fmt.Sscan(env("PGVMC_BOUND", "2"), &bound)
	fmt.Sscan(env("PGVMC_MAXRUNS", "4000"), &maxRuns)
	deadline := 1e9
	fmt.Sscan(env("PGVMC_DEADLINE", "1e9"), &deadline)
	c.MaxMsgs = 400
	noBigMaps = true
	defer func() { r.Extra["replays_diverged"] = diverged }()
	n := 0
	for _, mt := range mts {
		if ignored(mt.Descriptor()) {
			continue
		}
		n++
		if n%shards != shard {
			continue
		}
		if wall()-started > deadline {
			r.Skipped++
			continue
		}
		ps := pool(mt, c, 3)
		if len(ps) == 0 {
			continue
		}
		if len(ps) > 3 {
			ps = ps[:3]
		}
		md := mt.Descriptor()
		name := string(md.FullName())
		var want [][2]string
		for _, p := range ps {
			x := p.Interface().(validator)
			e1, p1 := call(x.Validate)
			e2, p2 := call(x.ValidateAll)
			want = append(want, [2]string{result(e1, p1), result(e2, p2)})
		}
		r.Types++
		sample := ""
	pairs:
		for i := range ps {
			for j := i; j < len(ps); j++ {
				for k := 0; k < 4; k++ {
					a, b := k&1, k>>1
					if i == j && a > b {
						continue
					}
					fn := func(p int, all int) func() error {
						x := ps[p].Interface().(validator)
						if all == 1 {
							return x.ValidateAll
						}
						return x.Validate
					}
					// A shared message that a validator writes to makes the other call's result depend on the schedule.
					before := dump(ps[i].Interface()) + dump(ps[j].Interface())
					okAll := true
					bodies := func() []func() error { return []func() error{fn(i, a), fn(j, b)} }
					judge := func(res []string, sched []int) bool {
						if res[0] != want[i][a] || res[1] != want[j][b] {
							okAll = false
							r.violate(Violation{Msg: name, Rules: rulesText(md), Value: fmt.Sprintf("{%s} || {%s} under schedule %v", show(ps[i].Interface()), show(ps[j].Interface()), sched), Got: strings.Join(res, " || "), Want: want[i][a] + " || " + want[j][b], Kind: "schedule"})
						}
						return okAll
					}
					// one preemption always completely, then the full bound up to the cap
					runs, steps, capped := explore(bodies, 1, 0, judge)
					if okAll && bound > 1 {
						n, s, c := explore(bodies, bound, maxRuns, judge)
						runs, steps, capped = n, steps+s, c
					}
					if dump(ps[i].Interface())+dump(ps[j].Interface()) != before && okAll {
						r.violate(Violation{Msg: name, Rules: rulesText(md), Value: before, Got: dump(ps[i].Interface()), Want: "unchanged messages", Kind: "purity"})
						okAll = false
					}
					r.Values += runs
					r.Calls += steps
					if capped {
						r.Capped++
					}
					r.outcomes[name+fmt.Sprint(a, b)+want[i][a]+want[j][b]] = true
					if sample == "" && runs > 1 {
						sample = fmt.Sprintf("%s: %d schedules, %d steps of %s {%s} || %s {%s}", name, runs, steps, []string{"Validate", "ValidateAll"}[a], show(ps[i].Interface()), []string{"Validate", "ValidateAll"}[b], show(ps[j].Interface()))
					}
					if !okAll {
						break pairs
					}
				}
			}
		}
		if len(r.Samples) < 4 && sample != "" {
			r.Samples = append(r.Samples, sample)
		}
	}
}

// race: free-running concurrent calls on shared messages, for the race detector.
func race(mts []protoreflect.MessageType, r *Report, c *vals.Cfg) {
	c.MaxMsgs = 300
	for _, mt := range mts {
		if ignored(mt.Descriptor()) {
			continue
		}
		ps := pool(mt, c, 4)
		if len(ps) > 4 {
			ps = ps[:4]
		}
		r.Types++
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for rep := 0; rep < 3; rep++ {
					for k := range ps {
						x := ps[(k+g)%len(ps)].Interface().(validator)
						call(x.Validate)
						call(x.ValidateAll)
					}
				}
			}()
		}
		wg.Wait()
		r.Calls += 4 * 3 * 2 * len(ps)
	}
}
