// Package vals enumerates the bounded value space of a message: for every
// field the boundary values of its type and of its rules' constants, for every
// message the combinations of those.
package vals

import (
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"pgvmc/ref"

	"github.com/envoyproxy/protoc-gen-validate/validate"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// Cfg bounds the enumeration.
type Cfg struct {
	Now     time.Time
	Wire    bool // only values that survive the wire (valid UTF-8, no nil elements)
	Deep    bool // thorough bounds
	NaN     bool
	Slack   bool
	MaxMsgs int // cap on combinations per message
	Capped  *int
	Degen   bool // degenerate values (C19)
	FullPat bool
}

func pv(x interface{}) protoreflect.Value { return protoreflect.ValueOf(x) }

func ruleMsg(r *validate.FieldRules) protoreflect.Message {
	if r == nil || r.Type == nil {
		return nil
	}
	od := r.ProtoReflect().Descriptor().Oneofs().ByName("type")
	fd := r.ProtoReflect().WhichOneof(od)
	return r.ProtoReflect().Get(fd).Message()
}

// constants of kind T in a rule message, in field order.
func constants(r protoreflect.Message, pick func(protoreflect.FieldDescriptor) bool) []protoreflect.Value {
	var out []protoreflect.Value
	if r == nil {
		return nil
	}
	fs := r.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if !r.Has(fd) || !pick(fd) {
			continue
		}
		if fd.IsList() {
			l := r.Get(fd).List()
			for j := 0; j < l.Len(); j++ {
				out = append(out, l.Get(j))
			}
		} else {
			out = append(out, r.Get(fd))
		}
	}
	return out
}

func nums[T int32 | int64 | uint32 | uint64](min, max T, r protoreflect.Message, kind protoreflect.Kind, ignore map[string]bool) []protoreflect.Value {
	base := []T{0, 1, 2, max, max - 1, min, min + 1}
	if min < 0 {
		var z T
		base = append(base, z-1, z-2)
	}
	for _, k := range constants(r, func(fd protoreflect.FieldDescriptor) bool {
		return fd.Name() != "ignore_empty"
	}) {
		c := k.Interface().(T)
		base = append(base, c)
		if c < max {
			base = append(base, c+1)
		}
		if c > min {
			base = append(base, c-1)
		}
	}
	seen := map[T]bool{}
	var out []protoreflect.Value
	for _, b := range base {
		if !seen[b] {
			seen[b] = true
			out = append(out, pv(b))
		}
	}
	return out
}

func ordering(r protoreflect.Message) bool {
	if r == nil {
		return false
	}
	for _, n := range []string{"lt", "lte", "gt", "gte"} {
		if fd := r.Descriptor().Fields().ByName(protoreflect.Name(n)); fd != nil && r.Has(fd) {
			return true
		}
	}
	return false
}

func floats64(r protoreflect.Message, c *Cfg) []protoreflect.Value {
	base := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1)}
	for _, k := range constants(r, func(fd protoreflect.FieldDescriptor) bool { return fd.Name() != "ignore_empty" }) {
		x := k.Interface().(float64)
		base = append(base, x, math.Nextafter(x, math.Inf(1)), math.Nextafter(x, math.Inf(-1)), x+1, x-1)
	}
	if !ordering(r) || c.NaN {
		base = append(base, math.NaN())
	}
	seen := map[uint64]bool{}
	var out []protoreflect.Value
	for _, b := range base {
		if !seen[math.Float64bits(b)] {
			seen[math.Float64bits(b)] = true
			out = append(out, pv(b))
		}
	}
	return out
}

func floats32(r protoreflect.Message, c *Cfg) []protoreflect.Value {
	base := []float32{0, float32(math.Copysign(0, -1)), 1, -1, 0.5, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, -math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1))}
	for _, k := range constants(r, func(fd protoreflect.FieldDescriptor) bool { return fd.Name() != "ignore_empty" }) {
		x := k.Interface().(float32)
		base = append(base, x, math.Nextafter32(x, float32(math.Inf(1))), math.Nextafter32(x, float32(math.Inf(-1))), x+1, x-1)
	}
	if !ordering(r) || c.NaN {
		base = append(base, float32(math.NaN()))
	}
	seen := map[uint32]bool{}
	var out []protoreflect.Value
	for _, b := range base {
		if !seen[math.Float32bits(b)] {
			seen[math.Float32bits(b)] = true
			out = append(out, pv(b))
		}
	}
	return out
}

// Words: every string over the alphabet of length at most n, shortest first.
func Words(alpha []string, n int) []string {
	out := []string{""}
	prev := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range prev {
			for _, a := range alpha {
				next = append(next, p+a)
			}
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

func dedup(in []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// edits: every single-character deletion, substitution, insertion and
// adjacent swap over the alphabet.
func edits(s string, alpha []string) []string {
	r := []rune(s)
	var out []string
	for i := 0; i <= len(r); i++ {
		for _, a := range alpha {
			out = append(out, string(r[:i])+a+string(r[i:]))
			if i < len(r) {
				out = append(out, string(r[:i])+a+string(r[i+1:]))
			}
		}
		if i < len(r) {
			out = append(out, string(r[:i])+string(r[i+1:]))
		}
		if i+1 < len(r) {
			out = append(out, string(r[:i])+string(r[i+1])+string(r[i])+string(r[i+2:]))
		}
	}
	return out
}

func swapCase(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z':
			return r - 32
		case r >= 'A' && r <= 'Z':
			return r + 32
		}
		return r
	}, s)
}

func stringsFor(r protoreflect.Message, c *Cfg) []string {
	alpha := []string{"a", "b", "é", "€", "😀"}
	n := 2
	if c.Deep {
		n = 3
	}
	out := Words(alpha, n)
	out = append(out, Words([]string{"a", "é"}, n+1)...)
	out = append(out, " ", "\x00", "a\x00b", "\n", "aaaa")
	if r == nil {
		return out
	}
	sr := r.Interface().(*validate.StringRules)
	for _, k := range constants(r, func(fd protoreflect.FieldDescriptor) bool {
		return fd.Kind() == protoreflect.StringKind && fd.Name() != "pattern"
	}) {
		s := k.String()
		out = append(out, s, s+"x", "x"+s, "x"+s+"x", s+s, swapCase(s), s+"\x00", s+" ", s+"\n", "\n"+s)
		rs := []rune(s)
		if len(rs) > 0 {
			out = append(out, string(rs[1:]), string(rs[:len(rs)-1]), string(rs[:len(rs)-1])+"z", "z"+string(rs[1:]))
			rev := ""
			for _, x := range rs {
				rev = string(x) + rev
			}
			out = append(out, rev)
		}
	}
	// combinations of prefix/contains/suffix constants
	out = append(out, sr.GetPrefix()+sr.GetSuffix(), sr.GetPrefix()+sr.GetContains()+sr.GetSuffix(),
		sr.GetPrefix()+sr.GetNotContains()+sr.GetSuffix(), sr.GetSuffix()+sr.GetPrefix(),
		sr.GetPrefix()+"q"+sr.GetContains()+"q"+sr.GetSuffix())
	for _, k := range constants(r, func(fd protoreflect.FieldDescriptor) bool { return fd.Kind() == protoreflect.Uint64Kind }) {
		for _, l := range []int{int(k.Uint()) - 1, int(k.Uint()), int(k.Uint()) + 1} {
			if l < 0 || l > 400 {
				continue
			}
			for _, a := range alpha {
				out = append(out, strings.Repeat(a, l))
			}
			if l > 0 {
				out = append(out, strings.Repeat("a", l-1)+"é", "😀"+strings.Repeat("a", l-1))
			}
		}
	}
	if sr.Pattern != nil {
		out = append(out, Words([]string{"a", "b", "x", "1", "A", "\n", "é"}, 3)...)
		out = append(out, "asdf", "aSdF", "a1b2", "abc\n", "\nabc", "abc", "xabcx", "AB-12")
	}
	return append(out, formatStrings(sr, c)...)
}

var hostSeeds = []string{"a", "a.b", "example.com", "a-b.c0", "EXAMPLE.Com", "1.2.3.4", "xn--fsq.com"}

func label(n int) string { return strings.Repeat("a", n) }

func hostStrings(c *Cfg) []string {
	n := 5
	if c.Deep {
		n = 6
	}
	out := Words([]string{"a", "Z", "-", ".", "0"}, n)
	out = append(out, Words([]string{"a", "_", "-", ".", "é", "\u212a", " ", "\x00", "{", "@", "/", ":", "[", "`", "z", "9"}, 3)...)
	for _, s := range hostSeeds {
		out = append(out, edits(s, []string{"a", "-", ".", "_", "Z", "é", "\u212a", "\x00", "\n"})...)
	}
	for _, k := range []int{62, 63, 64, 65} {
		out = append(out, label(k), label(k)+".", "a."+label(k), label(k)+".a", "a."+label(k)+".b.", "a."+label(k-1)+"-", strings.Repeat("é", k/2))
	}
	// total lengths around 253
	for total := 250; total <= 257; total++ {
		s := strings.Repeat(label(63)+".", 3) // 192
		s += label(total - len(s))
		out = append(out, s)
		out = append(out, s[:len(s)-1]+".")
		out = append(out, strings.Repeat("a.", (total-1)/2)+label(1+(total-1)%2))
		out = append(out, strings.Repeat("a.", total/2))
	}
	return out
}

func ip4Strings(c *Cfg) []string {
	octs := []string{"0", "1", "9", "10", "99", "100", "199", "255", "256", "300", "999", "1000", "", "01", "00", "a", "-1", "+1", " 1", "1 ", "0x1"}
	var out []string
	for _, o := range octs {
		out = append(out, o+".2.3.4", "1."+o+".3.4", "1.2."+o+".4", "1.2.3."+o)
	}
	out = append(out, "", "1", "1.2", "1.2.3", "1.2.3.4.5", "1.2.3.4.", ".1.2.3.4", "1..2.3", "1.2.3.4/8", "1.2.3.4 ", " 1.2.3.4", "1.2.3.4\n", "1.2.3.4\x00", "1.2.3.4\x00x", "255.255.255.255", "0.0.0.0", "1,2,3,4")
	out = append(out, edits("192.168.1.10", []string{"0", "2", "5", ".", "a", ":", "\x00"})...)
	return out
}

func ip6Strings(c *Cfg) []string {
	out := []string{"::", "::1", "1::", "1::1", ":::", ":", "", "::1::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1:2:3:4::5:6:7:8", "1::3:4:5:6:7:8",
		"ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "FE80::A", "fe80::1%eth0", "fe80::1%", "12345::", "g::", "1:2:3:4:5:6:7:", ":1:2:3:4:5:6:7", "[::1]", "::1/64", " ::1", "::1 ", "::1\x00", "::1\x00zz", "::1\n", "2001:db8::ff00:42:8329",
		"64:ff9b::1.2.3.4", "1:2:3:4:5:6:1.2.3.4", "1:2:3:4:5:6:7:1.2.3.4", "::1.2.3.256", "::1.2.3", "1::2::3", "00000::1", "0001::1"}
	out = append(out, Words([]string{":", "1", "f", "."}, 5)...)
	out = append(out, edits("2001:db8::1", []string{"0", ":", "f", "g", ".", "%", "\x00"})...)
	return out
}

// mapped: IPv4-mapped IPv6 text, on which the documentation does not say
// whether it counts as an IPv4 or an IPv6 address.
func mapped(s string) bool {
	return strings.HasPrefix(strings.ToLower(s), "::ffff:") || strings.HasPrefix(strings.ToLower(s), "0:0:0:0:0:ffff:")
}

func formatStrings(sr *validate.StringRules, c *Cfg) []string {
	var out []string
	switch w := sr.WellKnown.(type) {
	case *validate.StringRules_Hostname:
		out = append(hostStrings(c), "::1", "1.2.3.4")
	case *validate.StringRules_Address:
		out = append(append(hostStrings(c), ip4Strings(c)...), ip6Strings(c)...)
	case *validate.StringRules_Ip, *validate.StringRules_Ipv4, *validate.StringRules_Ipv6:
		for _, s := range append(ip4Strings(c), ip6Strings(c)...) {
			if !mapped(s) {
				out = append(out, s)
			}
		}
		out = append(out, "a.b", "localhost")
	case *validate.StringRules_Uuid:
		u := "123e4567-e89b-12d3-a456-426614174000"
		out = []string{u, strings.ToUpper(u), strings.ReplaceAll(u, "-", ""), "{" + u + "}", "urn:uuid:" + u, u + "\n", "\n" + u, u + "\x00", " " + u, u + " ", u + u, "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff", "FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF"}
		out = append(out, edits(u, []string{"0", "f", "F", "g", "-", "G", "`", "@", ":", "/", "é"})...)
	case *validate.StringRules_Email:
		out = []string{"a@b", "a@b.c", "a.b@c.d", "@b", "a@", "@", "a", "a@b@c", "a b@c", "\"a b\"@c.d", "\"a@b\"@c.d", "Foo Bar <a@b.c>", "<a@b.c>", "Foo <a@b.c", "a@b.c>", "a@-b.c", "a@b-.c", "a@b_c", "a@b..c", "a@.b", "a@b.", "a@[1.2.3.4]", "a@1.2.3.4", "a+tag@b.c", "a..b@c.d", ".a@b.c", "a.@b.c", "é@b.c", "a@é.c", "a@b.c\n", " a@b.c", "a@b.c ", "a,b@c.d", "a@b,c", "a@b.c, d@e.f", "a@b.c (comment)", "a@b\x00c"}
		for _, k := range []int{62, 63, 64, 65, 66} {
			out = append(out, label(k)+"@b.c", "a@"+label(k)+".c", "a@b."+label(k))
		}
		for total := 251; total <= 257; total++ {
			d := strings.Repeat(label(61)+".", 3) // 186
			loc := label(40)
			d += label(total - len(loc) - 1 - len(d))
			out = append(out, loc+"@"+d, "<"+loc+"@"+d+">", "Some Long Name <"+loc+"@"+d+">")
		}
		out = append(out, edits("ab@c-d.ef", []string{"a", "@", ".", "-", " ", "<", ">", "\"", "_", "é"})...)
		out = append(out, Words([]string{"a", "@", ".", "-"}, 5)...)
	case *validate.StringRules_Uri, *validate.StringRules_UriRef:
		out = append(Words([]string{"a", ":", "/", "?", "#", "%", " "}, 4),
			"http://example.com", "http://example.com/a?b=c#d", "https://u:p@h:80/p", "example.com", "/path", "./p", "../p", "//host/p", "?q", "#f", "http://[::1]/", "http://[::1", "http://a b/", "http://h:port/", "http://h:99999/", "%zz", "http://%41/", "a:%zz", "mailto:a@b.c", "urn:x:y", "1http://x", "ht tp://x", "http://x\x7f", "http://x\ny", "http://é/", "HTTP://X", "file:///etc", "h:a", ":foo", "foo:", "%41", "http://x/%", "http://x/%4", "http://x/%4g", "a+b.c-d:x")
	case *validate.StringRules_WellKnownRegex:
		_ = w
		for i := 0; i < 0x100; i++ {
			x := string(rune(i))
			out = append(out, x, "a"+x, x+"a", ":"+x, "a"+x+"b")
		}
		out = append(out, Words([]string{"a", ":", " ", "\t", "\r", "\n", "\x00", "\x7f", "-", ","}, 3)...)
		out = append(out, ":authority", "x-foo", "X-Foo", "::a", "a:", "clüster", "example-key-\u0000", "ok value", "line\r\nnext", "€", "😀", "\u2028")
	}
	return out
}

func bytesFor(r protoreflect.Message, c *Cfg) [][]byte {
	n := 2
	if c.Deep {
		n = 3
	}
	var out []string
	out = append(out, Words([]string{"\x00", "a", "\xff", "\x80"}, n)...)
	for _, l := range []int{3, 4, 5, 8, 12, 15, 16, 17, 32} {
		out = append(out, strings.Repeat("\x07", l), strings.Repeat("\xff", l))
	}
	out = append(out, "\x20\x01\x0d\xb8\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", strings.Repeat("\x00", 4), "a\x00", "a\x00b", "\x00a")
	if r != nil {
		br := r.Interface().(*validate.BytesRules)
		for _, k := range constants(r, func(fd protoreflect.FieldDescriptor) bool { return fd.Kind() == protoreflect.BytesKind }) {
			s := string(k.Bytes())
			out = append(out, s, s+"x", "x"+s, "x"+s+"x", s+s, swapCase(s), s+"\x00", "\x00"+s, s+"\xff")
			if len(s) > 0 {
				out = append(out, s[1:], s[:len(s)-1], s[:len(s)-1]+"z", "z"+s[1:])
			}
		}
		p, ct, sf := string(br.Prefix), string(br.Contains), string(br.Suffix)
		out = append(out, p+sf, p+ct+sf, sf+p, p+"q"+ct+"q"+sf)
		for _, k := range constants(r, func(fd protoreflect.FieldDescriptor) bool { return fd.Kind() == protoreflect.Uint64Kind }) {
			for _, l := range []int{int(k.Uint()) - 1, int(k.Uint()), int(k.Uint()) + 1} {
				if l >= 0 && l < 400 {
					out = append(out, strings.Repeat("a", l), strings.Repeat("\x80", l))
				}
			}
		}
		if br.Pattern != nil {
			out = append(out, Words([]string{"a", "b", "\xff", "\x00", "1", "\n"}, 3)...)
			out = append(out, "asdf", "abc", "xabcx")
		}
	}
	var bs [][]byte
	for _, s := range dedup(out) {
		bs = append(bs, []byte(s))
	}
	return bs
}

// Scalar enumerates the values of a scalar position.
func Scalar(fd protoreflect.FieldDescriptor, fr *validate.FieldRules, c *Cfg) []protoreflect.Value {
	r := ruleMsg(fr)
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return []protoreflect.Value{pv(false), pv(true)}
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return nums[int32](math.MinInt32, math.MaxInt32, r, fd.Kind(), nil)
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return nums[int64](math.MinInt64, math.MaxInt64, r, fd.Kind(), nil)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return nums[uint32](0, math.MaxUint32, r, fd.Kind(), nil)
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return nums[uint64](0, math.MaxUint64, r, fd.Kind(), nil)
	case protoreflect.FloatKind:
		return floats32(r, c)
	case protoreflect.DoubleKind:
		return floats64(r, c)
	case protoreflect.StringKind:
		var out []protoreflect.Value
		all := stringsFor(r, c)
		if big(fd) {
			all = append(all, bigStrings(fr.GetString_(), c)...)
		}
		for _, s := range dedup(all) {
			out = append(out, pv(s))
		}
		if c.Degen {
			out = append(out, pv("\xff"), pv("a\xffb"), pv("\xc3"))
		}
		return out
	case protoreflect.BytesKind:
		var out []protoreflect.Value
		all := bytesFor(r, c)
		if big(fd) {
			all = append(all, bigBytes(fr.GetBytes(), c)...)
		}
		for _, b := range all {
			out = append(out, pv(b))
		}
		return out
	case protoreflect.EnumKind:
		seen := map[int32]bool{}
		var out []protoreflect.Value
		add := func(n int32) {
			if !seen[n] {
				seen[n] = true
				out = append(out, pv(protoreflect.EnumNumber(n)))
			}
		}
		vs := fd.Enum().Values()
		for i := 0; i < vs.Len(); i++ {
			add(int32(vs.Get(i).Number()))
		}
		for i := 0; i < vs.Len(); i++ {
			n := int32(vs.Get(i).Number())
			if n < math.MaxInt32 {
				add(n + 1)
			}
			if n > math.MinInt32 {
				add(n - 1)
			}
		}
		for _, k := range constants(r, func(f protoreflect.FieldDescriptor) bool { return f.Kind() == protoreflect.Int32Kind }) {
			add(int32(k.Int()))
			add(int32(k.Int()) + 1)
		}
		add(math.MaxInt32)
		add(math.MinInt32)
		return out
	}
	panic(fd.Kind())
}

// few picks, by the reference's verdict on the position, up to nOK valid and
// nBad invalid values, keeping their order.
func few(vs []protoreflect.Value, ok func(protoreflect.Value) bool, nOK, nBad int) []protoreflect.Value {
	var good, bad []protoreflect.Value
	for i, v := range vs {
		_ = i
		if ok(v) {
			if len(good) < nOK {
				good = append(good, v)
			}
		} else if len(bad) < nBad {
			bad = append(bad, v)
		}
	}
	return append(good, bad...)
}

// opt is one way to fill a field.
type opt struct {
	set func(m protoreflect.Message)
	id  string
}

// wraps are the distances at which arithmetic on 64-bit nanoseconds (or 32-bit
// seconds) comes back to where it was, or to the other side.
var wraps = [][2]int64{{18446744073, 709551616}, {-18446744074, 1e9 - 709551616}, {9223372036, 854775808}, {-9223372037, 1e9 - 854775808}, {1 << 32, 0}, {-(1 << 32), 0}, {1 << 31, 0}, {0, 1 << 29}}

func shift(sec int64, nanos int32, w [2]int64) (int64, int32) {
	n := sec + w[0]
	x := int64(nanos) + w[1]
	for ; x >= 1e9; x -= 1e9 {
		n++
	}
	for ; x < 0; x += 1e9 {
		n--
	}
	return n, int32(x)
}

func durs(r *validate.DurationRules, c *Cfg) []*durationpb.Duration {
	base := []*durationpb.Duration{{}, {Nanos: 1}, {Nanos: -1}, {Seconds: 1}, {Seconds: -1}, {Seconds: 1, Nanos: 999999999}, {Seconds: -1, Nanos: -999999999},
		{Seconds: 1, Nanos: -1}, {Seconds: -1, Nanos: 1}, {Nanos: 1000000000}, {Nanos: -1000000000}, {Seconds: 315576000000}, {Seconds: 315576000001}, {Seconds: -315576000000}, {Seconds: -315576000001}, {Seconds: math.MaxInt64}, {Seconds: math.MinInt64, Nanos: math.MinInt32}, {Seconds: 5, Nanos: math.MaxInt32}}
	if r != nil {
		for _, k := range constants(r.ProtoReflect(), func(fd protoreflect.FieldDescriptor) bool { return fd.Message() != nil }) {
			d := k.Message().Interface().(*durationpb.Duration).AsDuration()
			for _, x := range []time.Duration{d, d - 1, d + 1, d + time.Second, d - time.Second, -d} {
				base = append(base, durationpb.New(x))
			}
			p := k.Message().Interface().(*durationpb.Duration)
			for _, w := range wraps {
				if sec, nanos := shift(p.Seconds, p.Nanos, w); sec < 0 && nanos > 0 {
					base = append(base, &durationpb.Duration{Seconds: sec + 1, Nanos: nanos - 1e9})
				} else {
					base = append(base, &durationpb.Duration{Seconds: sec, Nanos: nanos})
				}
			}
		}
	}
	return base
}

func tss(r *validate.TimestampRules, c *Cfg) []*timestamppb.Timestamp {
	base := []*timestamppb.Timestamp{{}, {Nanos: 1}, {Seconds: 1}, {Seconds: -1}, {Seconds: -1, Nanos: 999999999}, {Nanos: -1}, {Nanos: 1000000000}, {Seconds: -62135596800}, {Seconds: -62135596801}, {Seconds: 253402300799, Nanos: 999999999}, {Seconds: 253402300800}, {Seconds: math.MaxInt64}, {Seconds: math.MinInt64}}
	ws := []time.Duration{}
	if r != nil {
		for _, k := range constants(r.ProtoReflect(), func(fd protoreflect.FieldDescriptor) bool { return fd.Message() != nil && fd.Name() != "within" }) {
			t := k.Message().Interface().(*timestamppb.Timestamp).AsTime()
			for _, x := range []time.Duration{0, 1, -1, time.Second, -time.Second, 200 * 365 * 24 * time.Hour} {
				base = append(base, timestamppb.New(t.Add(x)))
			}
			p := k.Message().Interface().(*timestamppb.Timestamp)
			for _, w := range wraps {
				sec, nanos := shift(p.Seconds, p.Nanos, w)
				base = append(base, &timestamppb.Timestamp{Seconds: sec, Nanos: nanos})
			}
		}
		if r.Within != nil {
			ws = append(ws, r.Within.AsDuration())
		}
	}
	for _, w := range append(ws, 0) {
		ds := []time.Duration{0, 1, -1, time.Second, -time.Second}
		if c.Slack {
			// a clock we do not set: well off the edges
			ds = []time.Duration{0, 1500 * time.Second, -1500 * time.Second, time.Hour, -time.Hour}
		}
		for _, d := range ds {
			base = append(base, timestamppb.New(c.Now.Add(w+d)), timestamppb.New(c.Now.Add(-w+d)))
		}
	}
	return base
}

// values of a message-typed position; nil means unset.
func msgVals(md protoreflect.MessageDescriptor, newMsg func() protoreflect.Message, fr *validate.FieldRules, c *Cfg, depth int) []protoreflect.Message {
	out := []protoreflect.Message{nil}
	fill := func(src proto.Message) protoreflect.Message {
		m := newMsg()
		b := src.ProtoReflect()
		b.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			m.Set(m.Descriptor().Fields().ByNumber(fd.Number()), v)
			return true
		})
		return m
	}
	switch md.FullName() {
	case "google.protobuf.Duration":
		for _, d := range durs(fr.GetDuration(), c) {
			out = append(out, fill(d))
		}
		return out
	case "google.protobuf.Timestamp":
		for _, d := range tss(fr.GetTimestamp(), c) {
			out = append(out, fill(d))
		}
		return out
	case "google.protobuf.Any":
		urls := []string{"", "type.googleapis.com/google.protobuf.Duration", "google.protobuf.Duration", "type.googleapis.com/", "other"}
		for _, l := range [][]string{fr.GetAny().GetIn(), fr.GetAny().GetNotIn()} {
			for _, u := range l {
				urls = append(urls, u, u+"x", "x"+u, swapCase(u), u+"\x00")
				if len(u) > 0 {
					urls = append(urls, u[1:], u[:len(u)-1])
				}
			}
		}
		for _, u := range dedup(urls) {
			m := newMsg()
			m.Set(md.Fields().ByName("type_url"), pv(u))
			out = append(out, m)
			m2 := newMsg()
			m2.Set(md.Fields().ByName("type_url"), pv(u))
			m2.Set(md.Fields().ByName("value"), pv([]byte("v")))
			if u == "" {
				out = append(out, m2)
			}
		}
		return out
	}
	if w := ref.Wrapper(md); w != nil {
		for _, v := range Scalar(w, fr, c) {
			m := newMsg()
			m.Set(m.Descriptor().Fields().ByNumber(w.Number()), v)
			out = append(out, m)
		}
		return out
	}
	if depth <= 0 {
		return append(out, newMsg())
	}
	return append(out, messages(md, newMsg, c, depth-1)...)
}

// fieldOpts: the ways to fill field fd of md.
func fieldOpts(fd protoreflect.FieldDescriptor, newParent func() protoreflect.Message, c *Cfg, depth int) []opt {
	fr := ref.Rules(fd)
	var out []opt
	switch {
	case big(fd) && fd.IsMap():
		return bigMap(fd, newParent, c)
	case big(fd) && fd.IsList():
		return bigList(fd, newParent, c)
	case big(fd) && fd.Message() != nil && recursive(fd.Message()):
		return bigChain(fd, newParent, c)
	case fd.IsMap():
		kfd, vfd := fd.MapKey(), fd.MapValue()
		keys := pickKeys(kfd, fr.GetMap().GetKeys(), c)
		var values []protoreflect.Value
		if vfd.Message() == nil {
			all := Scalar(vfd, fr.GetMap().GetValues(), c)
			values = few(all, func(v protoreflect.Value) bool { return scalarOK(vfd, v, fr.GetMap().GetValues(), c) }, 2, 1)
		} else {
			vr := fr.GetMap().GetValues()
			proto0 := newParent().Mutable(fd).Map().NewValue().Message()
			ms := msgVals(vfd.Message(), proto0.New, vr, c, min(depth, 1))
			for _, m := range thinMsgs(vfd.Message(), ms, vr, c, 2, 1) {
				if m == nil {
					if !c.Wire {
						values = append(values, nilMsg(proto0))
					}
					continue
				}
				values = append(values, protoreflect.ValueOfMessage(m))
			}
		}
		maxN := 3
		var rec func(i int, pairs [][2]int)
		rec = func(i int, pairs [][2]int) {
			cp := append([][2]int{}, pairs...)
			out = append(out, opt{func(m protoreflect.Message) {
				if len(cp) == 0 {
					return
				}
				mm := m.Mutable(fd).Map()
				for _, p := range cp {
					mm.Set(keys[p[0]].MapKey(), clone(values[p[1]]))
				}
			}, ""})
			if len(pairs) == maxN {
				return
			}
			for k := i; k < len(keys); k++ {
				for v := range values {
					rec(k+1, append(pairs, [2]int{k, v}))
				}
			}
		}
		rec(0, nil)
	case fd.IsList():
		items := fr.GetRepeated().GetItems()
		var vs []protoreflect.Value
		if fd.Message() == nil {
			all := Scalar(fd, items, c)
			nOK, nBad := 2, 1
			if c.Deep {
				nOK, nBad = 3, 2
			}
			vs = few(all, func(v protoreflect.Value) bool { return scalarOK(fd, v, items, c) }, nOK, nBad)
			if fd.Kind() == protoreflect.FloatKind || fd.Kind() == protoreflect.DoubleKind {
				vs = append(vs, all[1]) // -0
				if fr.GetRepeated().GetUnique() {
					for i := 0; i < len(vs); i++ {
						if ref.HasNaN(vs[i]) {
							vs = append(vs[:i], vs[i+1:]...)
						}
					}
				}
			}
			// every value alone
			for i := range all {
				v := all[i]
				out = append(out, opt{func(m protoreflect.Message) { m.Mutable(fd).List().Append(v) }, ""})
			}
			// every value twice, and around another
			if fr.GetRepeated().GetUnique() && len(all) < 60 {
				for i := range all {
					v := all[i]
					if ref.HasNaN(v) {
						continue
					}
					for j := range all {
						w := all[j]
						if ref.HasNaN(w) {
							continue
						}
						out = append(out, opt{func(m protoreflect.Message) { l := m.Mutable(fd).List(); l.Append(v); l.Append(w) }, ""})
					}
				}
			}
		} else {
			proto0 := newParent().Mutable(fd).List().NewElement().Message()
			ms := msgVals(fd.Message(), proto0.New, items, c, min(depth, 1))
			for _, m := range ms {
				m := m
				if m != nil {
					out = append(out, opt{func(p protoreflect.Message) {
						p.Mutable(fd).List().Append(protoreflect.ValueOfMessage(m))
					}, ""})
				}
			}
			for _, m := range thinMsgs(fd.Message(), ms, items, c, 2, 1) {
				if m == nil {
					if !c.Wire {
						vs = append(vs, nilMsg(proto0))
					}
					continue
				}
				vs = append(vs, protoreflect.ValueOfMessage(m))
			}
		}
		maxN := 3
		if mx := fr.GetRepeated().GetMaxItems(); mx >= 3 && mx < 6 {
			maxN = int(mx) + 1
		}
		var rec func(idx []int)
		rec = func(idx []int) {
			cp := append([]int{}, idx...)
			out = append(out, opt{func(m protoreflect.Message) {
				if len(cp) == 0 {
					return
				}
				l := m.Mutable(fd).List()
				for _, i := range cp {
					l.Append(clone(vs[i]))
				}
			}, ""})
			if len(idx) == maxN {
				return
			}
			for i := range vs {
				rec(append(idx, i))
			}
		}
		rec(nil)
	case fd.Message() != nil:
		p := newParent()
		sub := p.NewField(fd).Message()
		for _, m := range msgVals(fd.Message(), sub.New, fr, c, depth) {
			m := m
			out = append(out, opt{func(p protoreflect.Message) {
				if m != nil {
					p.Set(fd, protoreflect.ValueOfMessage(m))
				} else if !c.Wire && fd.ContainingOneof() != nil && !fd.HasOptionalKeyword() {
					p.Set(fd, nilMsg(sub)) // the wrapper is set, the message is nil
				}
			}, ""})
		}
	default:
		for _, v := range Scalar(fd, fr, c) {
			v := v
			out = append(out, opt{func(p protoreflect.Message) { p.Set(fd, v) }, ""})
		}
	}
	return out
}

func clone(v protoreflect.Value) protoreflect.Value {
	if m, ok := v.Interface().(protoreflect.Message); ok {
		if !m.IsValid() {
			return v
		}
		return protoreflect.ValueOfMessage(proto.Clone(m.Interface()).ProtoReflect())
	}
	return v
}

// nilMsg is the typed nil of m's Go type.
func nilMsg(m protoreflect.Message) protoreflect.Value {
	t := reflect.TypeOf(m.Interface())
	return protoreflect.ValueOfMessage(reflect.Zero(t).Interface().(proto.Message).ProtoReflect())
}

func pickKeys(kfd protoreflect.FieldDescriptor, kr *validate.FieldRules, c *Cfg) []protoreflect.Value {
	all := Scalar(kfd, kr, c)
	ks := few(all, func(v protoreflect.Value) bool { return scalarOK(kfd, v, kr, c) }, 2, 1)
	if kr == nil && len(all) > 2 {
		ks = append(ks, all[2])
	}
	return ks
}

func scalarOK(fd protoreflect.FieldDescriptor, v protoreflect.Value, r *validate.FieldRules, c *Cfg) bool {
	return len(ref.ScalarViolations(fd, v, r, ref.Opts{Now: c.Now, FullMatch: c.FullPat})) == 0
}

func thinMsgs(md protoreflect.MessageDescriptor, ms []protoreflect.Message, r *validate.FieldRules, c *Cfg, nOK, nBad int) []protoreflect.Message {
	out := []protoreflect.Message{nil}
	ok, bad := 0, 0
	for _, m := range ms {
		if m == nil {
			continue
		}
		if len(ref.MessageViolations(md, m, r, ref.Opts{Now: c.Now, FullMatch: c.FullPat})) == 0 {
			if ok < nOK {
				out = append(out, m)
			}
			ok++
		} else {
			if bad < nBad {
				out = append(out, m)
			}
			bad++
		}
	}
	return out
}

// Messages enumerates the values of a message type: the full product of its
// fields' options when that is within the cap; otherwise all pairs of fields
// over thinned options with the remaining fields at their first valid option.
func Messages(mt protoreflect.MessageType, c *Cfg) []protoreflect.Message {
	return messages(mt.Descriptor(), mt.New, c, 3)
}

func messages(md protoreflect.MessageDescriptor, newMsg func() protoreflect.Message, c *Cfg, depth int) []protoreflect.Message {
	type slot struct{ opts []opt }
	var slots []slot
	seen := map[protoreflect.OneofDescriptor]bool{}
	fs := md.Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if od := fd.ContainingOneof(); od != nil {
			if seen[od] {
				continue
			}
			seen[od] = true
			opts := []opt{{func(protoreflect.Message) {}, "unset"}}
			for j := 0; j < od.Fields().Len(); j++ {
				f2 := od.Fields().Get(j)
				o2 := fieldOpts(f2, newMsg, c, depth)
				opts = append(opts, o2...)
			}
			slots = append(slots, slot{opts})
			continue
		}
		slots = append(slots, slot{fieldOpts(fd, newMsg, c, depth)})
	}
	build := func(choice []int) protoreflect.Message {
		m := newMsg()
		for i, k := range choice {
			slots[i].opts[k].set(m)
		}
		return m
	}
	// When there are several slots, thin each by the outcome it alone causes.
	if len(slots) > 1 {
		for i := range slots {
			if len(slots[i].opts) <= 5 {
				continue
			}
			byOutcome := map[string]int{}
			var kept []opt
			for _, o := range slots[i].opts {
				m := newMsg()
				o.set(m)
				key := outcome(m, c)
				if byOutcome[key] < 2 {
					byOutcome[key]++
					kept = append(kept, o)
				}
			}
			lim := 12
			if c.Deep {
				lim = 24
			}
			if len(kept) > lim {
				kept = kept[:lim]
			}
			slots[i].opts = kept
		}
	}
	total := 1
	for _, s := range slots {
		total *= len(s.opts)
		if total > 1<<40 {
			break
		}
	}
	max := c.MaxMsgs
	if max == 0 {
		max = 20000
	}
	if depth < 2 && max > 60 && len(slots) > 1 {
		max = 60
	}
	var out []protoreflect.Message
	if total <= max || len(slots) == 1 {
		choice := make([]int, len(slots))
		for {
			out = append(out, build(choice))
			i := len(slots) - 1
			for ; i >= 0; i-- {
				choice[i]++
				if choice[i] < len(slots[i].opts) {
					break
				}
				choice[i] = 0
			}
			if i < 0 {
				break
			}
		}
		return out
	}
	if c.Capped != nil {
		*c.Capped++
	}
	// pairwise around two base assignments (all first, all last options)
	seenC := map[string]bool{}
	add := func(choice []int) {
		k := ""
		for _, x := range choice {
			k += string(rune(x)) + ","
		}
		if !seenC[k] && len(out) < max {
			seenC[k] = true
			out = append(out, build(choice))
		}
	}
	bases := [2][]int{make([]int, len(slots)), make([]int, len(slots))}
	for i := range slots {
		bases[1][i] = len(slots[i].opts) - 1
	}
	// every single departure first, in case the pairs do not all fit
	for _, b := range bases {
		add(b)
		for i := range slots {
			for x := range slots[i].opts {
				cp := append([]int{}, b...)
				cp[i] = x
				add(cp)
			}
		}
	}
	for _, b := range bases {
		for i := range slots {
			for x := range slots[i].opts {
				for j := i + 1; j < len(slots); j++ {
					for y := range slots[j].opts {
						cp := append([]int{}, b...)
						cp[i], cp[j] = x, y
						add(cp)
					}
				}
			}
		}
	}
	return out
}

func outcome(m protoreflect.Message, c *Cfg) string {
	var ks []string
	for _, v := range ref.Check(m, ref.Opts{Now: c.Now, FullMatch: c.FullPat}) {
		ks = append(ks, v.Field+"|"+v.Reason)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}
