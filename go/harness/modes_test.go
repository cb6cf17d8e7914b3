package harness

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"

	"pgvmc/ref"
	"pgvmc/vals"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

type violErr interface {
	error
	Field() string
	Reason() string
	Key() bool
	Cause() error
	ErrorName() string
}

type multiErr interface {
	error
	AllErrors() []error
}

// leaves flattens one level: the violations an error stands for.
func leaves(err error) (out []error, multi bool) {
	if err == nil {
		return nil, false
	}
	if m, ok := err.(multiErr); ok {
		return m.AllErrors(), true
	}
	return []error{err}, false
}

func base(f string) string {
	if i := strings.IndexByte(f, '['); i >= 0 {
		return f[:i]
	}
	return f
}

// shape: how many violations, with how many different reasons, each field has,
// recursively through the causes of embedded messages.
func shapeImpl(err error, wantMulti bool, problems *[]string) string {
	ls, multi := leaves(err)
	if multi != wantMulti && err != nil {
		*problems = append(*problems, fmt.Sprintf("%T: multi-error %v, expected %v", err, multi, wantMulti))
	}
	if multi {
		var ts []string
		for _, e := range ls {
			ts = append(ts, e.Error())
		}
		if err.Error() != strings.Join(ts, "; ") {
			*problems = append(*problems, fmt.Sprintf("text of %T is not its violations' texts joined: %q", err, err.Error()))
		}
		if len(ls) == 0 {
			*problems = append(*problems, "empty multi-error")
		}
	}
	count := map[string]int{}
	reasons := map[string]map[string]bool{}
	var nested []string
	for _, e := range ls {
		v, ok := e.(violErr)
		if !ok {
			*problems = append(*problems, fmt.Sprintf("%T is no violation", e))
			continue
		}
		b := base(v.Field())
		count[b]++
		if reasons[b] == nil {
			reasons[b] = map[string]bool{}
		}
		reasons[b][v.Reason()] = true
		if c := v.Cause(); c != nil {
			if _, ok := c.(multiErr); ok {
				nested = append(nested, b+"<"+shapeImpl(c, wantMulti, problems)+">")
			} else if _, ok := c.(violErr); ok {
				nested = append(nested, b+"<"+shapeImpl(c, wantMulti, problems)+">")
			}
		}
	}
	return shapeText(count, reasons, nested)
}

func shapeText(count map[string]int, reasons map[string]map[string]bool, nested []string) string {
	var out []string
	for f, n := range count {
		out = append(out, fmt.Sprintf("%s x%d/%d", f, n, len(reasons[f])))
	}
	sort.Strings(out)
	sort.Strings(nested)
	return strings.Join(append(out, nested...), ", ")
}

func shapeRef(vs []ref.Viol) string {
	count := map[string]int{}
	reasons := map[string]map[string]bool{}
	var nested []string
	for _, v := range vs {
		b := base(v.Field)
		count[b]++
		if reasons[b] == nil {
			reasons[b] = map[string]bool{}
		}
		reasons[b][v.Reason] = true
		if v.Embedded {
			nested = append(nested, b+"<"+shapeRef(v.Cause)+">")
		}
	}
	return shapeText(count, reasons, nested)
}

func order(ls []error) []string {
	var out []string
	for _, e := range ls {
		if v, ok := e.(violErr); ok {
			b := base(v.Field())
			if len(out) == 0 || out[len(out)-1] != b {
				out = append(out, b)
			}
		}
	}
	return out
}

func orderRef(vs []ref.Viol) []string {
	var out []string
	for _, v := range vs {
		b := base(v.Field)
		if len(out) == 0 || out[len(out)-1] != b {
			out = append(out, b)
		}
	}
	return out
}

// memberOf: the single violation is one of those all lists, its cause (when a
// violation itself) one of those in that one's cause.
func memberOf(one error, all []error) bool {
	o, ok := one.(violErr)
	if !ok {
		return false
	}
	for _, a := range all {
		v, ok := a.(violErr)
		if !ok || v.Field() != o.Field() || v.Reason() != o.Reason() || v.Key() != o.Key() || (v.Cause() == nil) != (o.Cause() == nil) {
			continue
		}
		if o.Cause() != nil {
			if _, isV := o.Cause().(violErr); isV {
				ls, _ := leaves(v.Cause())
				if !memberOf(o.Cause(), ls) {
					continue
				}
			} else if o.Cause().Error() != v.Cause().Error() {
				continue
			}
		}
		return true
	}
	return false
}

// allMode (C09).
func allMode(mt protoreflect.MessageType, r *Report, c *vals.Cfg) {
	md := mt.Descriptor()
	if ignored(md) {
		return
	}
	name := string(md.FullName())
	l := &local{outcomes: map[string]bool{}}
	bad := 0
	fail := func(m protoreflect.Message, kind, got, want string) {
		if bad++; bad < 10 {
			r.violate(Violation{Msg: name, Rules: rulesText(md), Value: show(m.Interface()), Got: got, Want: want, Kind: kind})
		}
	}
	for _, m := range vals.Messages(mt, c) {
		want := ref.Check(m, ref.Opts{Now: c.Now})
		x, ok := m.Interface().(validator)
		if !ok {
			fail(m, "no-validator", "no methods", "Validate, ValidateAll")
			break
		}
		l.values++
		l.calls += 2
		if len(want) > 0 {
			l.invalid++
		}
		all, p1 := call(x.ValidateAll)
		one, p2 := call(x.Validate)
		if p1+p2 != "" {
			fail(m, "panic", p1+p2, "no panic")
			continue
		}
		sr := shapeRef(want)
		l.outcomes[name+"|"+sr] = true
		if (all == nil) != (one == nil) {
			fail(m, "nil-disagree", "Validate: "+oneLine(one)+" / ValidateAll: "+oneLine(all), violText(want))
			continue
		}
		var problems []string
		si := shapeImpl(all, true, &problems)
		if si != sr {
			fail(m, "completeness", si+" ("+oneLine(all)+")", sr+" ("+violText(want)+")")
			continue
		}
		if len(problems) > 0 {
			fail(m, "structure", strings.Join(problems, "; "), "multi-errors all the way down")
		}
		if all == nil {
			continue
		}
		ls, _ := leaves(all)
		if a, b := fmt.Sprint(order(ls)), fmt.Sprint(orderRef(want)); a != b {
			fail(m, "order", a, b)
		}
		if _, ok := one.(multiErr); ok {
			fail(m, "single", fmt.Sprintf("Validate returned a %T", one), "one violation")
			continue
		}
		v, ok := one.(violErr)
		if !ok {
			fail(m, "single", fmt.Sprintf("Validate returned a %T", one), "one violation")
			continue
		}
		if base(v.Field()) != base(want[0].Field) {
			fail(m, "first", v.Field(), want[0].Field)
		}
		if !memberOf(one, ls) {
			fail(m, "member", oneLine(one), "one of "+oneLine(all))
		}
		if l.sample == "" && len(want) > 1 {
			l.sample = name + " value {" + show(m.Interface()) + "} -> " + sr
		}
	}
	l.add(r)
}

func reasonOK(v ref.Viol, got string) bool {
	if v.Prefix {
		return strings.HasPrefix(got, v.Reason)
	}
	return got == v.Reason
}

// describe compares one reported violation with the reference's.
func describe(e error, want []ref.Viol, multi bool) string {
	v, ok := e.(violErr)
	if !ok {
		return fmt.Sprintf("%T lacks the violation's methods", e)
	}
	var near []string
	for _, w := range want {
		if w.Field != v.Field() || !reasonOK(w, v.Reason()) {
			if base(w.Field) == base(v.Field()) {
				near = append(near, fmt.Sprintf("%q %q", w.Field, w.Reason))
			}
			continue
		}
		p := ""
		if w.Key != v.Key() {
			p = fmt.Sprintf("Key() = %v", v.Key())
		} else if w.HasCause != (v.Cause() != nil) {
			p = fmt.Sprintf("Cause() = %v, expected a cause: %v", v.Cause(), w.HasCause)
		} else if v.ErrorName() != w.Msg+"ValidationError" {
			p = "ErrorName() = " + v.ErrorName()
		} else if t := reflect.TypeOf(e); t.Name() != w.Msg+"ValidationError" {
			p = "type " + t.Name()
		} else {
			parts := []string{w.Msg, v.Field(), v.Reason()}
			if w.Key {
				parts = append([]string{"key"}, parts...)
			}
			if v.Cause() != nil {
				parts = append(parts, v.Cause().Error())
			}
			rest := v.Error()
			for _, s := range parts {
				i := strings.Index(rest, s)
				if i < 0 {
					p = fmt.Sprintf("Error() = %q lacks %q", v.Error(), s)
					break
				}
				rest = rest[i+len(s):]
			}
			if p == "" && !w.Key && strings.Contains(strings.SplitN(v.Error(), w.Msg, 2)[0], "key") {
				p = fmt.Sprintf("Error() = %q speaks of a key", v.Error())
			}
		}
		if p == "" && w.Embedded {
			ls, _ := leaves(v.Cause())
			if len(ls) == 0 {
				p = "empty cause"
			}
			for _, s := range ls {
				if q := describe(s, w.Cause, multi); q != "" {
					p = "in the cause: " + q
					break
				}
			}
		}
		if p == "" {
			return ""
		}
		near = append(near, fmt.Sprintf("%q %q: %s", w.Field, w.Reason, p))
	}
	return fmt.Sprintf("field %q reason %q matches no expected violation: %s", v.Field(), v.Reason(), strings.Join(near, " | "))
}

// detailMode (C10).
func detailMode(mt protoreflect.MessageType, r *Report, c *vals.Cfg) {
	md := mt.Descriptor()
	if ignored(md) {
		return
	}
	name := string(md.FullName())
	l := &local{outcomes: map[string]bool{}}
	bad := 0
	for _, m := range vals.Messages(mt, c) {
		want := ref.Check(m, ref.Opts{Now: c.Now})
		x, ok := m.Interface().(validator)
		if !ok {
			continue
		}
		l.values++
		if len(want) == 0 {
			continue
		}
		l.invalid++
		for i, fn := range []func() error{x.Validate, x.ValidateAll} {
			l.calls++
			err, p := call(fn)
			if p != "" {
				continue // C19
			}
			ls, _ := leaves(err)
			for _, e := range ls {
				if v, ok := e.(violErr); ok {
					l.outcomes[name+"|"+base(v.Field())+"|"+v.Reason()] = true
				}
				if d := describe(e, want, i == 1); d != "" {
					if bad++; bad < 8 {
						r.violate(Violation{Msg: name, Rules: rulesText(md), Value: show(m.Interface()), Got: d, Want: violText(want), Kind: "detail"})
					}
				}
			}
		}
		if l.sample == "" {
			l.sample = name + " value {" + show(m.Interface()) + "} -> " + violText(want)
		}
	}
	l.add(r)
}

// degenMode (C19): no panic, nil on nil.
func degenMode(mt protoreflect.MessageType, r *Report, c *vals.Cfg) {
	md := mt.Descriptor()
	if ignored(md) {
		return
	}
	name := string(md.FullName())
	l := &local{outcomes: map[string]bool{}}
	bad := 0
	try := func(m proto.Message, what string, mustNil bool) {
		x, ok := m.(validator)
		if !ok {
			return
		}
		l.values++
		for i, fn := range []func() error{x.Validate, x.ValidateAll} {
			l.calls++
			err, p := call(fn)
			if err != nil {
				l.invalid++
				// rendering must not panic either
				if _, p2 := call(func() error { _ = err.Error(); return nil }); p2 != "" {
					p = "rendering the error: " + p2
				}
			}
			got := p
			if p == "" && mustNil && err != nil {
				got = oneLine(err)
			}
			if got != "" {
				if bad++; bad < 10 {
					r.violate(Violation{Msg: name, Rules: rulesText(md), Value: what + " " + show(m), Got: []string{"Validate: ", "ValidateAll: "}[i] + got, Want: "no panic", Kind: "total"})
				}
				l.outcomes[name+"|"+got] = true
			} else {
				l.outcomes[name+"|"+what+fmt.Sprint(err == nil)] = true
			}
		}
	}
	try(mt.Zero().Interface(), "nil", true)
	try(mt.New().Interface(), "empty", false)
	u := mt.New()
	u.SetUnknown([]byte{0xf8, 0x7f, 0x01, 0xfa, 0x7f, 0x02, 0xff, 0xff})
	try(u.Interface(), "unknown fields", false)
	for _, m := range vals.Messages(mt, c) {
		try(m.Interface(), "value", false)
		if l.sample == "" {
			l.sample = name + " value {" + show(m.Interface()) + "}"
		}
	}
	l.add(r)
}

// dumpMode writes the cases for the other languages' harnesses: per type a line
// "T name", per value "V hex verdict fields".
func dumpMode(mts []protoreflect.MessageType, r *Report, c *vals.Cfg) {
	f, err := os.Create(os.Getenv("PGVMC_CASES"))
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	var texts *json.Encoder
	if p := os.Getenv("PGVMC_TEXTS"); p != "" {
		tf, err := os.Create(p)
		if err != nil {
			panic(err)
		}
		tw := bufio.NewWriterSize(tf, 1<<20)
		defer func() { tw.Flush(); tf.Close() }()
		texts = json.NewEncoder(tw)
	}
	opts := ref.Opts{Now: c.Now, FullMatch: os.Getenv("PGVMC_FULLMATCH") == "1", CC: os.Getenv("PGVMC_CC") == "1", Py: os.Getenv("PGVMC_PY") == "1"}
	opts.Java = os.Getenv("PGVMC_JAVA") == "1" || opts.Py
	c.FullPat = opts.FullMatch
	c.Slack = opts.Java && !opts.Py
	limit := 0
	fmt.Sscan(env("PGVMC_MAX", "0"), &limit)
	c.MaxMsgs = limit
	for _, mt := range mts {
		if ignored(mt.Descriptor()) {
			continue
		}
		n := 0
		cc := *c
		cc.Capped = &n
		fmt.Fprintf(w, "T %s\n", mt.Descriptor().FullName())
		r.Types++
		seen := map[string]bool{}
		for _, m := range vals.Messages(mt, &cc) {
			b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m.Interface())
			if err != nil {
				continue
			}
			if seen[string(b)] {
				continue
			}
			seen[string(b)] = true
			opts.AllEnums = opts.Py || strings.Contains(string(mt.Descriptor().FullName()), ".jundef")
			want := ref.Check(m, opts)
			r.Values++
			fs := map[string]bool{}
			var fl []string
			for _, v := range want {
				if !fs[v.PField] {
					fs[v.PField] = true
					fl = append(fl, v.PField)
				}
			}
			if opts.Java {
				fl = nil
				leaves := map[string]bool{}
				ref.Leaves(want, leaves)
				for k := range leaves {
					fl = append(fl, k)
				}
				sort.Strings(fl)
			}
			// 1 valid, 0 invalid; with unimplemented rules: T must throw, N must
			// not be valid, M may throw or be valid
			ok := "1"
			real, must, may := ref.Classify(want)
			switch {
			case ref.Unjudged(want):
				ok = "U"
			case real && (must || may):
				ok = "N"
			case real:
				ok = "0"
			case must:
				ok = "T"
			case may:
				ok = "M"
			}
			if ok != "1" {
				r.Invalid++
			}
			if ok == "0" && texts != nil {
				t := map[string]interface{}{"t": mt.Descriptor().FullName(), "h": hex.EncodeToString(b), "c": ref.Texts(want), "f": ref.Faults(want)}
				if fd := mt.Descriptor().Fields().ByName(protoreflect.Name(want[0].PField)); fd != nil && !fd.IsList() && !fd.IsMap() {
					switch fd.Kind() {
					case protoreflect.MessageKind, protoreflect.GroupKind, protoreflect.StringKind, protoreflect.BytesKind, protoreflect.EnumKind:
					default:
						t["v"] = fmt.Sprint(m.Get(fd).Interface())
					}
				}
				if err := texts.Encode(t); err != nil {
					panic(err)
				}
			}
			r.outcomes[string(mt.Descriptor().FullName())+"|"+outcomeKey(want)] = true
			fmt.Fprintf(w, "V %s %s %s\n", hex.EncodeToString(b), ok, strings.Join(fl, ","))
			if len(r.Samples) < 8 && ok != "1" {
				r.Samples = append(r.Samples, string(mt.Descriptor().FullName())+" value {"+show(m.Interface())+"} -> "+violText(want))
			}
		}
		if n > 0 {
			r.Capped++
		}
	}
	if err := w.Flush(); err != nil {
		panic(err)
	}
	f.Close()
}

