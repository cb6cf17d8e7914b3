// Package harness explores generated Go validators.
package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"pgvmc/ref"
	"pgvmc/vals"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	_ "google.golang.org/protobuf/types/known/anypb"
	_ "google.golang.org/protobuf/types/known/emptypb"
	_ "google.golang.org/protobuf/types/known/fieldmaskpb"
	_ "google.golang.org/protobuf/types/known/structpb"
	_ "google.golang.org/protobuf/types/known/typepb"
	_ "google.golang.org/protobuf/types/known/wrapperspb"
)

// Violation found.
type Violation struct {
	Msg   string `json:"msg"`
	Rules string `json:"rules"`
	Value string `json:"value"`
	Got   string `json:"got"`
	Want  string `json:"want"`
	Kind  string `json:"kind"`
}

// Report of a run.
type Report struct {
	Types      int            `json:"types"`
	Values     int            `json:"values"`
	Calls      int            `json:"calls"`
	Invalid    int            `json:"invalid"`
	Outcomes   int            `json:"outcomes"`
	Capped     int            `json:"capped"`
	Skipped    int            `json:"skipped"`
	Violations []Violation    `json:"violations"`
	NViol      int            `json:"nviol"`
	Samples    []string       `json:"samples"`
	Extra      map[string]int `json:"extra"`

	mu       sync.Mutex
	outcomes map[string]bool
}

type validator interface {
	Validate() error
	ValidateAll() error
}

var started = wall()

func wall() float64 {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return float64(tv.Sec) + float64(tv.Usec)/1e6
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// types lists our message types, in a fixed order.
func types() []protoreflect.MessageType {
	var out []protoreflect.MessageType
	protoregistry.GlobalTypes.RangeMessages(func(mt protoreflect.MessageType) bool {
		d := mt.Descriptor()
		if strings.HasPrefix(string(d.FullName()), "pgvmc.") && !d.IsMapEntry() {
			out = append(out, mt)
		}
		return true
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Descriptor().FullName() < out[j].Descriptor().FullName() })
	return out
}

func ignored(md protoreflect.MessageDescriptor) bool { return ref.Ignored(md) }

func rulesText(md protoreflect.MessageDescriptor) string {
	var out []string
	for i := 0; i < md.Fields().Len(); i++ {
		fd := md.Fields().Get(i)
		if r := ref.Rules(fd); r != nil {
			out = append(out, fmt.Sprintf("%s %s: %s", fd.Kind(), fd.Name(), strings.Join(strings.Fields(prototext.MarshalOptions{}.Format(r)), " ")))
		} else {
			out = append(out, fmt.Sprintf("%s %s", fd.Kind(), fd.Name()))
		}
	}
	return strings.Join(out, "; ")
}

func show(m proto.Message) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("%T (unprintable)", m)
		}
	}()
	if m == nil || reflect.ValueOf(m).IsNil() {
		return "nil"
	}
	s = strings.Join(strings.Fields(prototext.MarshalOptions{AllowPartial: true}.Format(m)), " ")
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	// prototext drops what it cannot show: nil elements, invalid strings
	nils := 0
	m.ProtoReflect().Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsList() && fd.Message() != nil:
			for i := 0; i < v.List().Len(); i++ {
				if !v.List().Get(i).Message().IsValid() {
					nils++
				}
			}
		case fd.IsMap() && fd.MapValue().Message() != nil:
			v.Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
				if !v.Message().IsValid() {
					nils++
				}
				return true
			})
		}
		return true
	})
	if nils > 0 {
		s += fmt.Sprintf(" (%d nil elements)", nils)
	}
	return s
}

func call(f func() error) (err error, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			at := ""
			for i, l := range st {
				if strings.Contains(l, "panic(") && i+3 < len(st) {
					at = strings.TrimSpace(st[i+3])
				}
			}
			panicked = fmt.Sprintf("panic: %v at %s", r, at)
		}
	}()
	return f(), ""
}

func (r *Report) violate(v Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.NViol++
	if len(r.Violations) < 200 {
		r.Violations = append(r.Violations, v)
	}
}

func oneLine(e error) string {
	if e == nil {
		return "nil"
	}
	s := e.Error()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func violText(vs []ref.Viol) string {
	if len(vs) == 0 {
		return "nil"
	}
	var out []string
	for _, v := range vs {
		s := v.Field + ": " + v.Reason
		if v.Embedded {
			s += " <" + violText(v.Cause) + ">"
		}
		out = append(out, s)
	}
	s := strings.Join(out, "; ")
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// TestMC is the entry point: PGVMC_MODE chooses what is explored.
func TestMC(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		run(t)
	})
}

func run(t *testing.T) {
	mode := env("PGVMC_MODE", "verdict")
	r := &Report{outcomes: map[string]bool{}, Extra: map[string]int{}}
	now := time.Now()
	if os.Getenv("PGVMC_JAVA") == "1" {
		now = time.Unix(int64(wall()), 0) // Java reads the real clock
	}
	cfg := vals.Cfg{Now: now, Deep: os.Getenv("PGVMC_DEEP") == "1"}
	deadline := 1e9
	fmt.Sscan(env("PGVMC_DEADLINE", "1e9"), &deadline)
	only := os.Getenv("PGVMC_ONLY")
	var mts []protoreflect.MessageType
	for _, mt := range types() {
		if only != "" && string(mt.Descriptor().FullName()) != only {
			continue
		}
		mts = append(mts, mt)
	}
	var one func(mt protoreflect.MessageType, r *Report, c *vals.Cfg)
	switch mode {
	case "verdict":
		one = verdict
	case "all":
		cfg.MaxMsgs = 3000
		one = allMode
	case "detail":
		cfg.MaxMsgs = 1500
		one = detailMode
	case "degen":
		cfg.MaxMsgs = 3000
		cfg.Degen, cfg.NaN = true, true
		one = degenMode
	case "history":
		one = nil
		historyMode(mts, r, &cfg)
	case "dump":
		cfg.Wire = true
		dumpMode(mts, r, &cfg)
	default:
		t.Fatal("mode " + mode)
	}
	if one != nil {
		work := make(chan protoreflect.MessageType)
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for mt := range work {
					if wall()-started > deadline {
						r.mu.Lock()
						r.Skipped++
						r.mu.Unlock()
						continue
					}
					c := cfg
					n := 0
					c.Capped = &n
					one(mt, r, &c)
					r.mu.Lock()
					r.Types++
					if n > 0 {
						r.Capped++
					}
					r.mu.Unlock()
				}
			}()
		}
		for _, mt := range mts {
			work <- mt
		}
		close(work)
		wg.Wait()
	}
	r.Outcomes = len(r.outcomes)
	sort.Slice(r.Violations, func(i, j int) bool {
		a, b := r.Violations[i], r.Violations[j]
		if a.Msg != b.Msg {
			return a.Msg < b.Msg
		}
		return len(a.Value) < len(b.Value) || len(a.Value) == len(b.Value) && a.Value < b.Value
	})
	sort.Strings(r.Samples)
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		t.Fatal(err)
	}
	out := env("PGVMC_OUT", filepath.Join(os.TempDir(), "report.json"))
	if err := os.WriteFile(out, b, 0o644); err != nil {
		t.Fatal(err)
	}
}

// local collects a type's results without contending for the lock.
type local struct {
	values, calls, invalid int
	outcomes               map[string]bool
	sample                 string
}

func (l *local) add(r *Report) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Values += l.values
	r.Calls += l.calls
	r.Invalid += l.invalid
	for k := range l.outcomes {
		r.outcomes[k] = true
	}
	if len(r.Samples) < 12 && l.sample != "" {
		r.Samples = append(r.Samples, l.sample)
	}
}

func outcomeKey(vs []ref.Viol) string {
	var ks []string
	for _, v := range vs {
		f := v.Field
		if i := strings.IndexByte(f, '['); i >= 0 {
			f = f[:i] + "[]"
		}
		ks = append(ks, f+"|"+v.Reason)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// verdict: Validate and ValidateAll return nil exactly on valid messages.
func verdict(mt protoreflect.MessageType, r *Report, c *vals.Cfg) {
	md := mt.Descriptor()
	name := string(md.FullName())
	if _, ok := mt.New().Interface().(validator); !ok {
		if !ignored(md) && !strings.HasPrefix(string(md.Name()), "Old") {
			r.violate(Violation{Msg: name, Rules: rulesText(md), Kind: "no-validator", Got: "no Validate/ValidateAll method", Want: "generated validators"})
		}
		return
	}
	l := &local{outcomes: map[string]bool{}}
	bad := 0
	for _, m := range vals.Messages(mt, c) {
		want := ref.Check(m, ref.Opts{Now: c.Now})
		x := m.Interface().(validator)
		l.values++
		if len(want) > 0 {
			l.invalid++
		}
		l.outcomes[name+"|"+outcomeKey(want)] = true
		for i, fn := range []func() error{x.Validate, x.ValidateAll} {
			err, p := call(fn)
			l.calls++
			if (err == nil) != (len(want) == 0) || p != "" {
				got := oneLine(err)
				if p != "" {
					got = p
				}
				if bad++; bad < 20 {
					r.violate(Violation{Msg: name, Rules: rulesText(md), Value: show(m.Interface()), Got: []string{"Validate: ", "ValidateAll: "}[i] + got, Want: violText(want), Kind: "verdict"})
				}
			}
		}
		if len(want) > 0 && l.sample == "" {
			l.sample = name + " {" + rulesText(md) + "} value {" + show(m.Interface()) + "} -> " + violText(want)
		}
	}
	l.add(r)
}
