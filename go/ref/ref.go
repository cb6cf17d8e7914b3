// Package ref is the reference interpreter: it reads the rules of a message
// from its descriptor and decides, rule by rule, what a validator must report.
// It is written to be boring. It knows nothing of the code generators.
package ref

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"net/mail"
	"net/netip"
	"net/url"
	"regexp"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/envoyproxy/protoc-gen-validate/validate"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// Viol is one violation.
type Viol struct {
	Msg      string // Go name of the message that owns the field
	Field    string // Go name of the field, with [index] for elements
	PField   string // proto name of the field
	Reason   string
	Prefix   bool // Reason is only a prefix (the rest is not specified)
	Key      bool
	HasCause bool
	Cause    []Viol // of an embedded message
	Embedded bool
	// Unimpl marks a rule C++ does not implement: 1 reached (it must throw), 2
	// on a value that is not there (it may); 3: a format left to a library
	// that is not here.
	Unimpl int
	FQ     string // full name of the field or oneof
}

// Opts of a check.
type Opts struct {
	Now time.Time
	// FullMatch: patterns must match the whole value (C++, Java) rather than
	// some part of it (Go, Python).
	FullMatch bool
	// CC: rules not implemented in C++ become marks instead of verdicts.
	CC bool
	// Java: as CC for no_sparse; and formats are judged on plain values only.
	Java bool
	// Py: as Java, with a clock that stands still; set with Java.
	Py bool
	// AllEnums: numbers without a name are judged in Java as well.
	AllEnums bool
}

// Unjudged tells whether the outcome hangs on a library that is not here.
func Unjudged(vs []Viol) bool {
	for _, v := range vs {
		if v.Unimpl == 3 || Unjudged(v.Cause) {
			return true
		}
	}
	return false
}

// Leaves lists the full names of the fields at fault, at any depth.
func Leaves(vs []Viol, out map[string]bool) {
	for _, v := range vs {
		switch {
		case v.Embedded:
			Leaves(v.Cause, out)
		case v.Unimpl == 0:
			out[v.FQ] = true
		}
	}
}

// Classify tells real violations and marks apart, at any depth.
func Classify(vs []Viol) (real, must, may bool) {
	for _, v := range vs {
		switch {
		case v.Embedded:
			r, a, b := Classify(v.Cause)
			real, must, may = real || r, must || a, may || b
		case v.Unimpl == 1:
			must = true
		case v.Unimpl == 2:
			may = true
		case v.Unimpl == 3:
		default:
			real = true
		}
	}
	return
}

func (c *checker) unimpl(n int) { c.v("unimplemented").Unimpl = n }

type checker struct {
	o   Opts
	out []Viol
	// path context
	msg    protoreflect.MessageDescriptor
	field  protoreflect.FieldDescriptor
	index  string
	hasIdx bool
	key    bool
}

// GoName is protoc-gen-go's mapping of a proto identifier.
func GoName(s string) string {
	lower := func(c byte) bool { return 'a' <= c && c <= 'z' }
	digit := func(c byte) bool { return '0' <= c && c <= '9' }
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
		case c == '_' && i+1 < len(s) && lower(s[i+1]):
		case digit(c):
			b = append(b, c)
		default:
			if lower(c) {
				c -= 'a' - 'A'
			}
			b = append(b, c)
			for ; i+1 < len(s) && lower(s[i+1]); i++ {
				b = append(b, s[i+1])
			}
		}
	}
	return string(b)
}

// MsgGoName is the Go type name of a message.
func MsgGoName(md protoreflect.MessageDescriptor) string {
	if p, ok := md.Parent().(protoreflect.MessageDescriptor); ok {
		return MsgGoName(p) + "_" + GoName(string(md.Name()))
	}
	return GoName(string(md.Name()))
}

func (c *checker) v(reason ...interface{}) *Viol {
	f := ""
	pf := ""
	fq := ""
	if c.field != nil {
		fq = string(c.field.FullName())
		f = GoName(string(c.field.Name()))
		pf = string(c.field.Name())
	}
	if c.hasIdx {
		f += "[" + c.index + "]"
	}
	c.out = append(c.out, Viol{Msg: MsgGoName(c.msg), Field: f, PField: pf, Reason: fmt.Sprint(reason...), Key: c.key, FQ: fq})
	return &c.out[len(c.out)-1]
}

var rulesCache sync.Map

// Rules of a field, or nil.
func Rules(fd protoreflect.FieldDescriptor) *validate.FieldRules {
	if r, ok := rulesCache.Load(fd); ok {
		return r.(*validate.FieldRules)
	}
	var r *validate.FieldRules
	if o, ok := fd.Options().(*descriptorpb.FieldOptions); ok && o != nil && proto.HasExtension(o, validate.E_Rules) {
		r = proto.GetExtension(o, validate.E_Rules).(*validate.FieldRules)
	}
	rulesCache.Store(fd, r)
	return r
}

func msgFlag(md protoreflect.MessageDescriptor, x protoreflect.ExtensionType) bool {
	o, ok := md.Options().(*descriptorpb.MessageOptions)
	if !ok || o == nil || !proto.HasExtension(o, x) {
		return false
	}
	b, _ := proto.GetExtension(o, x).(bool)
	return b
}

// Disabled, Ignored: the message options.
func Disabled(md protoreflect.MessageDescriptor) bool { return msgFlag(md, validate.E_Disabled) }
func Ignored(md protoreflect.MessageDescriptor) bool  { return msgFlag(md, validate.E_Ignored) }

func oneofRequired(od protoreflect.OneofDescriptor) bool {
	o, ok := od.Options().(*descriptorpb.OneofOptions)
	if !ok || o == nil || !proto.HasExtension(o, validate.E_Required) {
		return false
	}
	b, _ := proto.GetExtension(o, validate.E_Required).(bool)
	return b
}

// HasValidator: a message with generated validation (ours, not ignored).
func HasValidator(md protoreflect.MessageDescriptor) bool {
	return strings.HasPrefix(string(md.FullName()), "pgvmc.") && !Ignored(md)
}

// Check lists the violations of m (nil: no message).
func Check(m protoreflect.Message, o Opts) []Viol {
	if m == nil || !m.IsValid() {
		return nil
	}
	md := m.Descriptor()
	if !HasValidator(md) || Disabled(md) {
		return nil
	}
	c := &checker{o: o, msg: md}
	for i := 0; i < md.Fields().Len(); i++ {
		fd := md.Fields().Get(i)
		if fd.ContainingOneof() != nil {
			continue
		}
		c.fieldOf(m, fd)
	}
	for i := 0; i < md.Oneofs().Len(); i++ {
		od := md.Oneofs().Get(i)
		fd := m.WhichOneof(od)
		if fd != nil {
			c.fieldOf(m, fd)
		} else if oneofRequired(od) {
			c.out = append(c.out, Viol{Msg: MsgGoName(md), Field: GoName(string(od.Name())), PField: string(od.Name()), Reason: "value is required", FQ: string(od.FullName())})
		}
	}
	return c.out
}

func (c *checker) fieldOf(m protoreflect.Message, fd protoreflect.FieldDescriptor) {
	c.field, c.hasIdx, c.index, c.key = fd, false, "", false
	r := Rules(fd)
	v := m.Get(fd)
	switch {
	case fd.IsMap():
		c.mapv(fd, v.Map(), r)
	case fd.IsList():
		c.list(fd, v.List(), r)
	case fd.Message() != nil:
		var mm protoreflect.Message
		if m.Has(fd) {
			mm = v.Message()
			if !mm.IsValid() {
				mm = nil
			}
		}
		c.message(fd.Message(), mm, r)
	default:
		c.scalar(fd, v, r)
	}
}

// Wrapper: the wrapped field if md is one of the nine wrapper types.
func Wrapper(md protoreflect.MessageDescriptor) protoreflect.FieldDescriptor {
	if md.ParentFile().Path() == "google/protobuf/wrappers.proto" {
		return md.Fields().Get(0)
	}
	return nil
}

// message decides a message-typed position; mm is nil when unset.
func (c *checker) message(md protoreflect.MessageDescriptor, mm protoreflect.Message, r *validate.FieldRules) {
	switch t := r.GetType().(type) {
	case *validate.FieldRules_Any:
		c.any(mm, t.Any)
		return
	case *validate.FieldRules_Duration:
		c.duration(mm, t.Duration)
		return
	case *validate.FieldRules_Timestamp:
		c.timestamp(mm, t.Timestamp)
		return
	}
	if w := Wrapper(md); w != nil && r.GetType() != nil {
		if mm != nil {
			c.scalar(w, mm.Get(w), r)
		} else if r.GetMessage().GetRequired() {
			c.v("value is required and must not be nil.")
		}
		return
	}
	if r.GetMessage().GetRequired() && mm == nil {
		c.v("value is required")
	}
	if mm == nil || r.GetMessage().GetSkip() {
		return
	}
	if vs := Check(mm, c.o); len(vs) > 0 {
		v := c.v("embedded message failed validation")
		v.HasCause, v.Embedded, v.Cause = true, true, vs
	}
}

func (c *checker) list(fd protoreflect.FieldDescriptor, l protoreflect.List, r *validate.FieldRules) {
	rr := r.GetRepeated()
	n := uint64(l.Len())
	if rr.GetIgnoreEmpty() && n == 0 {
		return
	}
	if rr != nil {
		c.size(n, rr.MinItems, rr.MaxItems, "item", "items")
	}
	for i := 0; i < l.Len(); i++ {
		c.hasIdx, c.index = true, fmt.Sprint(i)
		if c.o.Java && !c.o.AllEnums && rr.GetUnique() && fd.Enum() != nil && fd.Enum().Values().ByNumber(l.Get(i).Enum()) == nil {
			c.unimpl(3)
		}
		if rr.GetUnique() {
			for j := 0; j < i; j++ {
				if equalScalar(fd, l.Get(i), l.Get(j)) {
					c.v("repeated value must contain unique items")
					break
				}
			}
		}
		items := rr.GetItems()
		if rr == nil && r.GetMessage() != nil {
			items = &validate.FieldRules{Message: r.GetMessage()}
		}
		c.elem(fd, l.Get(i), items)
		c.hasIdx = false
	}
}

func (c *checker) elem(fd protoreflect.FieldDescriptor, v protoreflect.Value, r *validate.FieldRules) {
	if fd.Message() != nil {
		mm := v.Message()
		if !mm.IsValid() {
			mm = nil
		}
		c.message(fd.Message(), mm, r)
		return
	}
	c.scalar(fd, v, r)
}

func (c *checker) size(n uint64, min, max *uint64, one, many string) {
	switch {
	case min != nil && max != nil && *min == *max && *min != 0:
		if n != *min {
			c.v("value must contain exactly ", *min, " "+one+"(s)")
		}
	case min != nil && max != nil && *min != 0:
		if n < *min || n > *max {
			c.v("value must contain between ", *min, " and ", *max, " "+many+", inclusive")
		}
	case min != nil && *min != 0:
		if n < *min {
			c.v("value must contain at least ", *min, " "+one+"(s)")
		}
	case max != nil:
		if n > *max {
			c.v("value must contain no more than ", *max, " "+one+"(s)")
		}
	}
}

func (c *checker) mapv(fd protoreflect.FieldDescriptor, m protoreflect.Map, r *validate.FieldRules) {
	mr := r.GetMap()
	n := uint64(m.Len())
	if mr.GetIgnoreEmpty() && n == 0 {
		return
	}
	if mr != nil {
		c.size(n, mr.MinPairs, mr.MaxPairs, "pair", "pairs")
	}
	if (c.o.CC || c.o.Java && !c.o.Py) && mr.GetNoSparse() {
		if n > 0 {
			c.unimpl(1)
		} else {
			c.unimpl(2)
		}
	}
	m.Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
		c.hasIdx, c.index = true, fmt.Sprint(k.Interface())
		if !c.o.CC && !c.o.Java && mr.GetNoSparse() && fd.MapValue().Message() != nil && !v.Message().IsValid() {
			c.v("value cannot be sparse, all pairs must be non-nil")
		}
		c.key = true
		c.scalar(fd.MapKey(), k.Value(), mr.GetKeys())
		c.key = false
		values := mr.GetValues()
		if mr == nil && r.GetMessage() != nil {
			values = &validate.FieldRules{Message: r.GetMessage()}
		}
		c.elem(fd.MapValue(), v, values)
		c.hasIdx = false
		return true
	})
}

func equalScalar(fd protoreflect.FieldDescriptor, a, b protoreflect.Value) bool {
	if fd.Kind() == protoreflect.BytesKind {
		return bytes.Equal(a.Bytes(), b.Bytes())
	}
	return a.Interface() == b.Interface()
}

func (c *checker) scalar(fd protoreflect.FieldDescriptor, v protoreflect.Value, r *validate.FieldRules) {
	switch t := r.GetType().(type) {
	case nil:
	case *validate.FieldRules_Float:
		num[float32](c, v, t.Float.ProtoReflect())
	case *validate.FieldRules_Double:
		num[float64](c, v, t.Double.ProtoReflect())
	case *validate.FieldRules_Int32:
		num[int32](c, v, t.Int32.ProtoReflect())
	case *validate.FieldRules_Int64:
		num[int64](c, v, t.Int64.ProtoReflect())
	case *validate.FieldRules_Uint32:
		num[uint32](c, v, t.Uint32.ProtoReflect())
	case *validate.FieldRules_Uint64:
		num[uint64](c, v, t.Uint64.ProtoReflect())
	case *validate.FieldRules_Sint32:
		num[int32](c, v, t.Sint32.ProtoReflect())
	case *validate.FieldRules_Sint64:
		num[int64](c, v, t.Sint64.ProtoReflect())
	case *validate.FieldRules_Fixed32:
		num[uint32](c, v, t.Fixed32.ProtoReflect())
	case *validate.FieldRules_Fixed64:
		num[uint64](c, v, t.Fixed64.ProtoReflect())
	case *validate.FieldRules_Sfixed32:
		num[int32](c, v, t.Sfixed32.ProtoReflect())
	case *validate.FieldRules_Sfixed64:
		num[int64](c, v, t.Sfixed64.ProtoReflect())
	case *validate.FieldRules_Bool:
		if t.Bool.Const != nil && v.Bool() != *t.Bool.Const {
			c.v("value must equal ", *t.Bool.Const)
		}
	case *validate.FieldRules_String_:
		c.str(v.String(), t.String_)
	case *validate.FieldRules_Bytes:
		c.bytes(v.Bytes(), t.Bytes)
	case *validate.FieldRules_Enum:
		c.enum(fd, int32(v.Enum()), t.Enum)
	default:
		panic(fmt.Sprintf("rule %T on scalar %s", t, fd.FullName()))
	}
}

type number interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~float32 | ~float64
}

func num[T number](c *checker, pv protoreflect.Value, r protoreflect.Message) {
	get := func(n string) *T {
		fd := r.Descriptor().Fields().ByName(protoreflect.Name(n))
		if fd == nil || !r.Has(fd) {
			return nil
		}
		x := r.Get(fd).Interface().(T)
		return &x
	}
	lst := func(n string) []T {
		fd := r.Descriptor().Fields().ByName(protoreflect.Name(n))
		var out []T
		for i := 0; i < r.Get(fd).List().Len(); i++ {
			out = append(out, r.Get(fd).List().Get(i).Interface().(T))
		}
		return out
	}
	v := pv.Interface().(T)
	if fd := r.Descriptor().Fields().ByName("ignore_empty"); r.Get(fd).Bool() && v == 0 {
		return
	}
	if k := get("const"); k != nil && v != *k {
		c.v("value must equal ", *k)
	}
	lt, lte, gt, gte := get("lt"), get("lte"), get("gt"), get("gte")
	var lo, hi *T
	var loOpen, hiOpen bool
	switch {
	case lt != nil:
		hi, hiOpen = lt, true
	case lte != nil:
		hi = lte
	}
	switch {
	case gt != nil:
		lo, loOpen = gt, true
	case gte != nil:
		lo = gte
	}
	belowHi := func() bool { return hi != nil && (v < *hi || !hiOpen && v == *hi) }
	aboveLo := func() bool { return lo != nil && (v > *lo || !loOpen && v == *lo) }
	switch {
	case hi != nil && lo != nil && *hi > *lo:
		if !(belowHi() && aboveLo()) {
			c.v("value must be inside range "+br(loOpen, "(", "["), *lo, ", ", *hi, br(hiOpen, ")", "]"))
		}
	case hi != nil && lo != nil:
		// outside: v may be below the upper or above the lower bound
		if !(belowHi() || aboveLo()) {
			c.v("value must be outside range "+br(hiOpen, "[", "("), *hi, ", ", *lo, br(loOpen, "]", ")"))
		}
	case hi != nil:
		if !belowHi() {
			c.v("value must be less than "+br(hiOpen, "", "or equal to "), *hi)
		}
	case lo != nil:
		if !aboveLo() {
			c.v("value must be greater than "+br(loOpen, "", "or equal to "), *lo)
		}
	}
	inList(c, v, lst("in"), lst("not_in"))
}

func br(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

func inList[T comparable](c *checker, v T, in, notIn []T) {
	if len(in) > 0 {
		ok := false
		for _, x := range in {
			ok = ok || x == v
		}
		if !ok {
			c.v("value must be in list ", in)
		}
		return
	}
	for _, x := range notIn {
		if x == v {
			c.v("value must not be in list ", notIn)
			return
		}
	}
}

func (c *checker) lenRule(n int, exact, min, max *uint64, unit string) {
	l := uint64(n)
	switch {
	case exact != nil:
		if l != *exact {
			c.v("value length must be ", *exact, " "+unit)
		}
	case min != nil && max != nil && *min == *max:
		if l != *min {
			c.v("value length must be ", *min, " "+unit)
		}
	case min != nil && max != nil:
		if l < *min || l > *max {
			c.v("value length must be between ", *min, " and ", *max, " "+unit+", inclusive")
		}
	case min != nil:
		if l < *min {
			c.v("value length must be at least ", *min, " "+unit)
		}
	case max != nil:
		if l > *max {
			c.v("value length must be at most ", *max, " "+unit)
		}
	}
}

var reCache sync.Map

func (c *checker) match(pat, s string) bool {
	if c.o.FullMatch {
		pat = "^(?:" + pat + ")$"
	}
	re, ok := reCache.Load(pat)
	if !ok {
		re = regexp.MustCompile(pat)
		reCache.Store(pat, re)
	}
	return re.(*regexp.Regexp).MatchString(s)
}

func (c *checker) str(s string, r *validate.StringRules) {
	if r.GetIgnoreEmpty() && s == "" {
		return
	}
	if r.Const != nil && s != *r.Const {
		c.v("value must equal ", *r.Const)
	}
	inList(c, s, r.In, r.NotIn)
	c.lenRule(utf8.RuneCountInString(s), r.Len, r.MinLen, r.MaxLen, "runes")
	c.lenRule(len(s), r.LenBytes, r.MinBytes, r.MaxBytes, "bytes")
	if r.Prefix != nil && !strings.HasPrefix(s, *r.Prefix) {
		c.v("value does not have prefix ", q(*r.Prefix))
	}
	if r.Suffix != nil && !strings.HasSuffix(s, *r.Suffix) {
		c.v("value does not have suffix ", q(*r.Suffix))
	}
	if r.Contains != nil && !strings.Contains(s, *r.Contains) {
		c.v("value does not contain substring ", q(*r.Contains))
	}
	if r.NotContains != nil && strings.Contains(s, *r.NotContains) {
		c.v("value contains substring ", q(*r.NotContains))
	}
	if c.o.Java && (r.GetEmail() && !plain(s) || (r.GetUri() || r.GetUriRef()) && !plainURI(s)) {
		c.unimpl(3)
		r = proto.Clone(r).(*validate.StringRules)
		r.WellKnown = nil
	}
	if c.o.CC && (r.GetEmail() || r.GetUri() || r.GetUriRef()) {
		c.unimpl(1)
		r = proto.Clone(r).(*validate.StringRules)
		r.WellKnown = nil
	}
	switch w := r.WellKnown.(type) {
	case *validate.StringRules_Ip:
		if w.Ip && !IsIP(s) {
			c.v("value must be a valid IP address")
		}
	case *validate.StringRules_Ipv4:
		if w.Ipv4 && !IsIPv4(s) {
			c.v("value must be a valid IPv4 address")
		}
	case *validate.StringRules_Ipv6:
		if w.Ipv6 && !IsIPv6(s) {
			c.v("value must be a valid IPv6 address")
		}
	case *validate.StringRules_Email:
		if w.Email && !IsEmail(s) {
			c.v("value must be a valid email address").HasCause = true
		}
	case *validate.StringRules_Hostname:
		if w.Hostname && !IsHostname(s) {
			c.v("value must be a valid hostname").HasCause = true
		}
	case *validate.StringRules_Address:
		if w.Address && !IsHostname(s) && !IsIP(s) {
			c.v("value must be a valid hostname, or ip address")
		}
	case *validate.StringRules_Uri:
		if w.Uri {
			u, err := url.Parse(s)
			if err != nil {
				c.v("value must be a valid URI").HasCause = true
			} else if u.Scheme == "" {
				c.v("value must be absolute")
			}
		}
	case *validate.StringRules_UriRef:
		if w.UriRef {
			if _, err := url.Parse(s); err != nil {
				c.v("value must be a valid URI").HasCause = true
			}
		}
	case *validate.StringRules_Uuid:
		if w.Uuid && !IsUUID(s) {
			c.v("value must be a valid UUID").HasCause = true
		}
	case *validate.StringRules_WellKnownRegex:
		strict := r.Strict == nil || *r.Strict
		ok := true
		switch {
		case w.WellKnownRegex == validate.KnownRegex_UNKNOWN:
		case !strict:
			ok = !strings.ContainsAny(s, "\x00\r\n")
		case w.WellKnownRegex == validate.KnownRegex_HTTP_HEADER_NAME:
			ok = IsHeaderName(s)
		case w.WellKnownRegex == validate.KnownRegex_HTTP_HEADER_VALUE:
			ok = IsHeaderValue(s)
		}
		if !ok {
			c.v("value does not match regex pattern ").Prefix = true
		}
	}
	if r.Pattern != nil && !c.match(*r.Pattern, s) {
		c.v("value does not match regex pattern ", q(*r.Pattern))
	}
}

func q(s string) string { return fmt.Sprintf("%q", s) }

// IsIP etc. decide the string formats.
func IsIP(s string) bool { return IsIPv4(s) || IsIPv6(s) }
func IsIPv4(s string) bool {
	parts := strings.Split(s, ".")
	if len(parts) != 4 {
		return false
	}
	for _, p := range parts {
		if len(p) == 0 || len(p) > 3 || len(p) > 1 && p[0] == '0' {
			return false
		}
		n := 0
		for _, d := range []byte(p) {
			if d < '0' || d > '9' {
				return false
			}
			n = n*10 + int(d-'0')
		}
		if n > 255 {
			return false
		}
	}
	return true
}
func IsIPv6(s string) bool {
	a, err := netip.ParseAddr(s)
	return err == nil && a.Is6() && a.Zone() == "" && !strings.Contains(s, "%")
}

func IsHostname(s string) bool {
	if len(s) > 253 {
		return false
	}
	s = strings.TrimSuffix(s, ".")
	for _, l := range strings.Split(s, ".") {
		if len(l) < 1 || len(l) > 63 || l[0] == '-' || l[len(l)-1] == '-' {
			return false
		}
		for _, b := range []byte(l) {
			if !(alnum(b) || b == '-') {
				return false
			}
		}
	}
	return true
}

func alnum(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

func IsEmail(s string) bool {
	a, err := mail.ParseAddress(s)
	if err != nil || len(a.Address) > 254 {
		return false
	}
	i := strings.LastIndexByte(a.Address, '@')
	return i <= 64 && IsHostname(a.Address[i+1:])
}

func IsUUID(s string) bool {
	if len(s) != 36 {
		return false
	}
	for i, b := range []byte(s) {
		switch i {
		case 8, 13, 18, 23:
			if b != '-' {
				return false
			}
		default:
			if !(b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F') {
				return false
			}
		}
	}
	return true
}

func IsHeaderName(s string) bool {
	s = strings.TrimPrefix(s, ":")
	for _, b := range []byte(s) {
		if !alnum(b) && !strings.ContainsRune("!#$%&'*+-.^_|~`", rune(b)) {
			return false
		}
		if b >= 0x80 {
			return false
		}
	}
	return s != ""
}

func IsHeaderValue(s string) bool {
	for _, b := range []byte(s) {
		if b < 0x20 && b != '\t' || b == 0x7f {
			return false
		}
	}
	return true
}

func (c *checker) bytes(b []byte, r *validate.BytesRules) {
	if r.GetIgnoreEmpty() && len(b) == 0 {
		return
	}
	c.lenRule(len(b), r.Len, r.MinLen, r.MaxLen, "bytes")
	if r.Prefix != nil && !bytes.HasPrefix(b, r.Prefix) {
		c.v("value does not have prefix ", ByteStr(r.Prefix))
	}
	if r.Suffix != nil && !bytes.HasSuffix(b, r.Suffix) {
		c.v("value does not have suffix ", ByteStr(r.Suffix))
	}
	if r.Contains != nil && !bytes.Contains(b, r.Contains) {
		c.v("value does not contain ", ByteStr(r.Contains))
	}
	in := func(l [][]byte) bool {
		for _, x := range l {
			if bytes.Equal(x, b) {
				return true
			}
		}
		return false
	}
	if len(r.In) > 0 {
		if !in(r.In) {
			c.v("value must be in list ", r.In)
		}
	} else if len(r.NotIn) > 0 && in(r.NotIn) {
		c.v("value must not be in list ", r.NotIn)
	}
	if r.Const != nil && !bytes.Equal(b, r.Const) {
		c.v("value must equal ", r.Const)
	}
	if c.o.CC && (r.GetIp() || r.GetIpv4() || r.GetIpv6()) {
		c.unimpl(1)
		r = proto.Clone(r).(*validate.BytesRules)
		r.WellKnown = nil
	}
	switch w := r.WellKnown.(type) {
	case *validate.BytesRules_Ip:
		if w.Ip && len(b) != 4 && len(b) != 16 {
			c.v("value must be a valid IP address")
		}
	case *validate.BytesRules_Ipv4:
		if w.Ipv4 && len(b) != 4 {
			c.v("value must be a valid IPv4 address")
		}
	case *validate.BytesRules_Ipv6:
		if w.Ipv6 && len(b) != 16 {
			c.v("value must be a valid IPv6 address")
		}
	}
	if r.Pattern != nil && !c.match(*r.Pattern, string(b)) {
		c.v("value does not match regex pattern ", q(*r.Pattern))
	}
}

// ByteStr renders bytes the way reasons show them.
func ByteStr(b []byte) string {
	s := `"`
	for _, x := range b {
		s += fmt.Sprintf(`\x%02X`, x)
	}
	return s + `"`
}

func (c *checker) enum(fd protoreflect.FieldDescriptor, n int32, r *validate.EnumRules) {
	if c.o.Java && !c.o.AllEnums {
		// numbers without a name are null in sets and all the same as values
		undefined := func(l []int32) bool {
			for _, x := range l {
				if fd.Enum().Values().ByNumber(protoreflect.EnumNumber(x)) == nil {
					return true
				}
			}
			return false
		}
		if r.Const != nil && undefined([]int32{*r.Const}) || undefined([]int32{n}) && (undefined(r.In) || undefined(r.NotIn)) {
			c.unimpl(3)
			return
		}
	}
	if r.Const != nil && n != *r.Const {
		c.v("value must equal ", *r.Const)
	}
	inList(c, n, r.In, r.NotIn)
	if r.GetDefinedOnly() && fd.Enum().Values().ByNumber(protoreflect.EnumNumber(n)) == nil {
		c.v("value must be one of the defined enum values")
	}
}

func (c *checker) any(m protoreflect.Message, r *validate.AnyRules) {
	if m == nil {
		if r.GetRequired() {
			c.v("value is required")
		}
		return
	}
	u := m.Get(m.Descriptor().Fields().ByName("type_url")).String()
	has := func(l []string) bool {
		for _, x := range l {
			if x == u {
				return true
			}
		}
		return false
	}
	if len(r.In) > 0 {
		if !has(r.In) {
			c.v("type URL must be in list ", r.In)
		}
	} else if has(r.NotIn) {
		c.v("type URL must not be in list ", r.NotIn)
	}
}

// nanos since epoch (or of a duration) as an exact integer.
func nanos(sec int64, n int32) *big.Int {
	x := new(big.Int).Mul(big.NewInt(sec), big.NewInt(1e9))
	return x.Add(x, big.NewInt(int64(n)))
}

func secNanos(m protoreflect.Message) (int64, int32) {
	f := m.Descriptor().Fields()
	return m.Get(f.ByName("seconds")).Int(), int32(m.Get(f.ByName("nanos")).Int())
}

func (c *checker) bounds(x *big.Int, lt, lte, gt, gte *big.Int, show func(*big.Int) string) {
	hi, hiOpen := lte, false
	if lt != nil {
		hi, hiOpen = lt, true
	}
	lo, loOpen := gte, false
	if gt != nil {
		lo, loOpen = gt, true
	}
	below := func() bool { k := x.Cmp(hi); return k < 0 || k == 0 && !hiOpen }
	above := func() bool { k := x.Cmp(lo); return k > 0 || k == 0 && !loOpen }
	switch {
	case hi != nil && lo != nil && hi.Cmp(lo) > 0:
		if !(below() && above()) {
			c.v("value must be inside range ", br(loOpen, "(", "["), show(lo), ", ", show(hi), br(hiOpen, ")", "]"))
		}
	case hi != nil && lo != nil:
		if !(below() || above()) {
			c.v("value must be outside range ", br(hiOpen, "[", "("), show(hi), ", ", show(lo), br(loOpen, "]", ")"))
		}
	case hi != nil:
		if !below() {
			c.v("value must be less than ", br(hiOpen, "", "or equal to "), show(hi))
		}
	case lo != nil:
		if !above() {
			c.v("value must be greater than ", br(loOpen, "", "or equal to "), show(lo))
		}
	}
}

func (c *checker) duration(m protoreflect.Message, r *validate.DurationRules) {
	if m == nil {
		if r.GetRequired() {
			c.v("value is required")
		}
		return
	}
	any := r.Const != nil || r.Lt != nil || r.Lte != nil || r.Gt != nil || r.Gte != nil || len(r.In) > 0 || len(r.NotIn) > 0
	if !any {
		return
	}
	s, n := secNanos(m)
	const maxS = 315576000000
	if s < -maxS || s > maxS || n <= -1e9 || n >= 1e9 || s > 0 && n < 0 || s < 0 && n > 0 {
		if c.o.Java {
			c.unimpl(3)
			return
		}
		c.v("value is not a valid duration").HasCause = true
		return
	}
	x := nanos(s, n)
	d := func(p *durationpb.Duration) *big.Int {
		if p == nil {
			return nil
		}
		return nanos(p.Seconds, p.Nanos)
	}
	show := func(b *big.Int) string { return time.Duration(b.Int64()).String() }
	if k := d(r.Const); k != nil && x.Cmp(k) != 0 {
		c.v("value must equal ", show(k))
	}
	c.bounds(x, d(r.Lt), d(r.Lte), d(r.Gt), d(r.Gte), show)
	has := func(l []*durationpb.Duration) bool {
		for _, p := range l {
			if d(p).Cmp(x) == 0 {
				return true
			}
		}
		return false
	}
	if len(r.In) > 0 {
		if !has(r.In) {
			c.v("value must be in list ").Prefix = true
		}
	} else if has(r.NotIn) {
		c.v("value must not be in list ").Prefix = true
	}
}

func (c *checker) timestamp(m protoreflect.Message, r *validate.TimestampRules) {
	any := r.Const != nil || r.Lt != nil || r.Lte != nil || r.Gt != nil || r.Gte != nil || r.LtNow != nil || r.GtNow != nil || r.Within != nil
	if c.o.CC && any {
		if m != nil && (r.Const != nil || r.Lt != nil || r.Lte != nil || r.Gt != nil || r.Gte != nil || r.GetLtNow() || r.GetGtNow() || r.Within != nil) {
			c.unimpl(1)
		} else {
			c.unimpl(2)
		}
		any = false
	}
	if m == nil {
		if r.GetRequired() {
			c.v("value is required")
		}
		return
	}
	if !any {
		return
	}
	s, n := secNanos(m)
	if s < -62135596800 || s > 253402300799 || n < 0 || n >= 1e9 {
		if c.o.Java {
			c.unimpl(3)
			return
		}
		c.v("value is not a valid timestamp").HasCause = true
		return
	}
	x := nanos(s, n)
	t := func(p *timestamppb.Timestamp) *big.Int {
		if p == nil {
			return nil
		}
		return nanos(p.Seconds, p.Nanos)
	}
	show := func(b *big.Int) string {
		sec, ns := new(big.Int).DivMod(b, big.NewInt(1e9), new(big.Int))
		return time.Unix(sec.Int64(), ns.Int64()).UTC().String()
	}
	if k := t(r.Const); k != nil && x.Cmp(k) != 0 {
		c.v("value must equal ", show(k))
	}
	c.bounds(x, t(r.Lt), t(r.Lte), t(r.Gt), t(r.Gte), show)
	now := nanos(c.o.Now.Unix(), int32(c.o.Now.Nanosecond()))
	var w *big.Int
	ws := ""
	if r.Within != nil {
		w = nanos(r.Within.Seconds, r.Within.Nanos)
		ws = time.Duration(w.Int64()).String()
	}
	dist := new(big.Int).Sub(x, now)
	if c.o.Java && !c.o.Py {
		// the clock of Java is the real one: values near an edge are not judged
		off := new(big.Int).Abs(dist)
		if (r.GetLtNow() || r.GetGtNow()) && nearEdge(off) || w != nil && nearEdge(off.Sub(off, w)) {
			c.unimpl(3)
			return
		}
	}
	if c.o.Py && w != nil && new(big.Int).Abs(dist).Cmp(w) == 0 {
		// README: (now, now+1h); the Go code: (now, now+1h]
		c.unimpl(3)
		return
	}
	switch {
	case r.GetLtNow() && w != nil:
		if dist.Sign() >= 0 || new(big.Int).Neg(dist).Cmp(w) > 0 {
			c.v("value must be less than now within ", ws)
		}
	case r.GetLtNow():
		if dist.Sign() >= 0 {
			c.v("value must be less than now")
		}
	case r.GetGtNow() && w != nil:
		if dist.Sign() <= 0 || dist.Cmp(w) > 0 {
			c.v("value must be greater than now within ", ws)
		}
	case r.GetGtNow():
		if dist.Sign() <= 0 {
			c.v("value must be greater than now")
		}
	case w != nil:
		if new(big.Int).Abs(dist).Cmp(w) >= 0 {
			c.v("value must be within ", ws, " of now")
		}
	}
}

// HasNaN: NaN under an ordering rule is outside the documented semantics.
func HasNaN(v protoreflect.Value) bool {
	switch x := v.Interface().(type) {
	case float32:
		return math.IsNaN(float64(x))
	case float64:
		return math.IsNaN(x)
	}
	return false
}

// ScalarViolations, MessageViolations judge one position on its own.
func ScalarViolations(fd protoreflect.FieldDescriptor, v protoreflect.Value, r *validate.FieldRules, o Opts) []Viol {
	c := &checker{o: o, msg: fd.ContainingMessage()}
	c.scalar(fd, v, r)
	return c.out
}

func MessageViolations(md protoreflect.MessageDescriptor, m protoreflect.Message, r *validate.FieldRules, o Opts) []Viol {
	c := &checker{o: o, msg: md}
	c.message(md, m, r)
	return c.out
}

// plain: no character that parsers of addresses and URIs treat differently.
func plain(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || strings.IndexByte(".-@:/", c) >= 0) {
			return false
		}
	}
	return true
}

// nearEdge: within the run of a check.
func nearEdge(d *big.Int) bool {
	return new(big.Int).Abs(d).Cmp(big.NewInt(1200*1e9)) < 0
}

var plainURIs = regexp.MustCompile("^[a-z]+://[a-z0-9]+(\\.[a-z0-9]+)*(/[a-z0-9]+)*/?$|^(/?[a-z0-9]+)*/?$")

func plainURI(s string) bool { return plainURIs.MatchString(s) }

// First lists the violations of the first field at fault.
func First(vs []Viol) (out []Viol) {
	for _, v := range vs {
		if v.FQ == vs[0].FQ {
			out = append(out, v)
		}
	}
	return
}

// Texts lists what a validator that stops at its first violation may say, in
// the form of the C++ validators: the first field is settled, the order of its
// rules and of the entries of a map is not.
func Texts(vs []Viol) (out []string) {
	for _, v := range First(vs) {
		parts := strings.Split(v.FQ, ".")
		t := "invalid "
		if v.Key {
			t += "key for "
		}
		t += parts[len(parts)-2] + "ValidationError." + v.Field + ": " + v.Reason
		if v.Prefix {
			t += " ..."
		}
		if !v.Embedded {
			out = append(out, t)
			continue
		}
		for _, c := range Texts(v.Cause) {
			if len(out) < 64 {
				out = append(out, t+" | caused by "+c)
			}
		}
	}
	return
}

// Faults lists the field and the reason of what a validator that stops at its
// first violation may find, at the bottom of embedded messages.
func Faults(vs []Viol) (out [][2]string) {
	for _, v := range First(vs) {
		if v.Embedded {
			out = append(out, Faults(v.Cause)...)
		} else {
			out = append(out, [2]string{v.FQ, v.Reason})
		}
	}
	return
}
