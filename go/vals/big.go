package vals

import (
	"fmt"
	"strings"

	"pgvmc/ref"

	"github.com/envoyproxy/protoc-gen-validate/validate"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Fields called "big" get values of many sizes rather than all small values:
// lists and maps of up to hundreds of elements with every one or every two of
// them special, long strings with something special at every offset, chains
// of messages with a violation at every depth.

func big(fd protoreflect.FieldDescriptor) bool { return fd.Name() == "big" }

var bigSizes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300}

// distinct is the i-th of many different values of a kind; for messages it is
// the first int32 field that differs.
func distinct(fd protoreflect.FieldDescriptor, i int, newMsg func() protoreflect.Message) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return pv(int32(i + 1))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return pv(int64(i + 1))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return pv(uint32(i + 1))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return pv(uint64(i + 1))
	case protoreflect.FloatKind:
		return pv(float32(i) + 0.5)
	case protoreflect.DoubleKind:
		return pv(float64(i) + 0.5)
	case protoreflect.StringKind:
		return pv(fmt.Sprintf("a%d", i))
	case protoreflect.BytesKind:
		return pv([]byte(fmt.Sprintf("a%d", i)))
	case protoreflect.BoolKind:
		return pv(true)
	case protoreflect.EnumKind:
		return pv(protoreflect.EnumNumber(i))
	}
	m := newMsg()
	fs := m.Descriptor().Fields()
	for j := 0; j < fs.Len(); j++ {
		if f := fs.Get(j); f.Message() == nil && !f.IsList() {
			m.Set(f, distinct(f, i, nil))
			break
		}
	}
	return protoreflect.ValueOfMessage(m)
}

// the n-th elements that are looked at one by one in a list of n
func places(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if n <= 17 || i < 2 || i > n-3 || i == n/2 || i == 16 || i == 64 {
			out = append(out, i)
		}
	}
	return out
}

func badElement(fd protoreflect.FieldDescriptor, r *validate.FieldRules, c *Cfg, newMsg func() protoreflect.Message) []protoreflect.Value {
	if fd.Message() != nil {
		var out []protoreflect.Value
		for _, m := range thinMsgs(fd.Message(), msgVals(fd.Message(), newMsg, r, c, 1), r, c, 0, 1) {
			if m != nil {
				out = append(out, protoreflect.ValueOfMessage(m))
			}
		}
		if !c.Wire {
			out = append(out, nilMsg(newMsg()))
		}
		return out
	}
	return few(Scalar(fd, r, c), func(v protoreflect.Value) bool { return scalarOK(fd, v, r, c) }, 0, 1)
}

func bigSizesFor(a, b uint64) []int {
	sizes := append([]int{}, bigSizes...)
	for _, k := range []uint64{a, b} {
		if k > 300 && k < 5000 {
			sizes = append(sizes, int(k)-1, int(k), int(k)+1)
		}
	}
	return sizes
}

func bigList(fd protoreflect.FieldDescriptor, newParent func() protoreflect.Message, c *Cfg) (out []opt) {
	fr := ref.Rules(fd)
	var newMsg func() protoreflect.Message
	if fd.Message() != nil {
		newMsg = newParent().Mutable(fd).List().NewElement().Message().New
	}
	bad := badElement(fd, fr.GetRepeated().GetItems(), c, newMsg)
	add := func(n int, at map[int]func() protoreflect.Value) {
		out = append(out, opt{func(m protoreflect.Message) {
			if n == 0 {
				return
			}
			l := m.Mutable(fd).List()
			for i := 0; i < n; i++ {
				if f := at[i]; f != nil {
					l.Append(f())
				} else {
					l.Append(distinct(fd, i, newMsg))
				}
			}
		}, ""})
	}
	for _, n := range bigSizesFor(fr.GetRepeated().GetMinItems(), fr.GetRepeated().GetMaxItems()) {
		add(n, nil)
		for _, i := range places(n) {
			for _, b := range bad {
				b := b
				put := func() protoreflect.Value { return clone(b) }
				add(n, map[int]func() protoreflect.Value{i: put})
				if i > 0 {
					add(n, map[int]func() protoreflect.Value{0: put, i: put})
				}
			}
			// the element at i again at every later place
			if fr.GetRepeated().GetUnique() {
				for _, j := range places(n) {
					if j > i {
						i := i
						add(n, map[int]func() protoreflect.Value{j: func() protoreflect.Value { return distinct(fd, i, newMsg) }})
					}
				}
			}
		}
	}
	return out
}

func bigMap(fd protoreflect.FieldDescriptor, newParent func() protoreflect.Message, c *Cfg) (out []opt) {
	fr := ref.Rules(fd)
	kfd, vfd := fd.MapKey(), fd.MapValue()
	var newMsg func() protoreflect.Message
	if vfd.Message() != nil {
		newMsg = newParent().Mutable(fd).Map().NewValue().Message().New
	}
	badV := badElement(vfd, fr.GetMap().GetValues(), c, newMsg)
	badK := badElement(kfd, fr.GetMap().GetKeys(), c, nil)
	add := func(n int, key *protoreflect.Value, at int, v *protoreflect.Value) {
		out = append(out, opt{func(m protoreflect.Message) {
			if n == 0 {
				return
			}
			mm := m.Mutable(fd).Map()
			for i := 0; i < n; i++ {
				k, x := distinct(kfd, i, nil), distinct(vfd, i, newMsg)
				if i == at && key != nil {
					k = *key
				}
				if i == at && v != nil {
					x = clone(*v)
				}
				mm.Set(k.MapKey(), x)
			}
		}, ""})
	}
	for _, n := range bigSizesFor(fr.GetMap().GetMinPairs(), fr.GetMap().GetMaxPairs()) {
		add(n, nil, 0, nil)
		for _, i := range places(n) {
			for k := range badV {
				add(n, nil, i, &badV[k])
			}
			for k := range badK {
				add(n, &badK[k], i, nil)
			}
		}
	}
	return out
}

// bigChain: for a recursive message, chains of up to 12 links of every kind,
// mixed ones of up to 3, valid and with a violation at every depth.
func bigChain(fd protoreflect.FieldDescriptor, newParent func() protoreflect.Message, c *Cfg) (out []opt) {
	md := fd.Message()
	var links []protoreflect.FieldDescriptor
	var num protoreflect.FieldDescriptor
	for i := 0; i < md.Fields().Len(); i++ {
		f := md.Fields().Get(i)
		switch {
		case f.IsMap() && f.MapValue().Message() == md, f.Message() == md:
			links = append(links, f)
		case num == nil && f.Kind() == protoreflect.Int32Kind:
			num = f
		}
	}
	link := func(parent protoreflect.Message, f protoreflect.FieldDescriptor) protoreflect.Message {
		switch {
		case f.IsMap():
			mm := parent.Mutable(f).Map()
			k := distinct(f.MapKey(), 0, nil).MapKey()
			mm.Set(k, mm.NewValue())
			return mm.Get(k).Message()
		case f.IsList():
			l := parent.Mutable(f).List()
			l.AppendMutable()
			return l.AppendMutable().Message()
		}
		return parent.Mutable(f).Message()
	}
	add := func(path []int, bad int) {
		p := append([]int{}, path...)
		out = append(out, opt{func(m protoreflect.Message) {
			at := m.Mutable(fd).Message()
			for d := 0; ; d++ {
				if d == bad {
					at.Set(num, pv(int32(1000)))
				}
				if d == len(p) {
					return
				}
				at = link(at, links[p[d]])
			}
		}, ""})
	}
	paths := [][]int{{}}
	for i := 0; i < len(paths); i++ {
		if len(paths[i]) < 3 {
			for k := range links {
				paths = append(paths, append(append([]int{}, paths[i]...), k))
			}
		}
	}
	for k := range links {
		var p []int
		for n := 1; n <= 12; n++ {
			p = append(p, k)
			if n > 3 {
				paths = append(paths, append([]int{}, p...))
			}
		}
	}
	for _, p := range paths {
		for bad := -1; bad <= len(p); bad++ {
			add(p, bad)
		}
	}
	return out
}

// edge characters of every encoded length
var edgeRunes = []string{"\x00", "\x7f", "\u0080", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\ufffd", "\uffff", "\U00010000", "\U0010ffff", "e\u0301", "\ufeff"}

func bigStrings(sr *validate.StringRules, c *Cfg) (out []string) {
	for _, e := range edgeRunes {
		out = append(out, e, "a"+e, e+"a", e+e, "a"+e+"a")
	}
	var ks []uint64
	if sr != nil {
		for _, k := range constants(sr.ProtoReflect(), func(fd protoreflect.FieldDescriptor) bool { return fd.Kind() == protoreflect.Uint64Kind }) {
			ks = append(ks, k.Uint())
		}
	}
	for _, k := range append(ks, 16, 32, 64, 100, 128, 255, 256, 1000) {
		if k > 200000 {
			continue
		}
		for _, n := range []int{int(k) - 1, int(k), int(k) + 1} {
			if n < 1 {
				continue
			}
			for _, e := range append([]string{"a", "é", "€", "😀"}, edgeRunes...) {
				if n > 2000 && e > "a" && e != "😀" {
					continue
				}
				out = append(out, strings.Repeat(e, n))
				if n%len(e) == 0 {
					out = append(out, strings.Repeat(e, n/len(e)))
				}
			}
			out = append(out, "é"+strings.Repeat("a", n-1), strings.Repeat("a", n-1)+"😀")
		}
	}
	if sr != nil {
		for _, k := range constants(sr.ProtoReflect(), func(fd protoreflect.FieldDescriptor) bool {
			return fd.Kind() == protoreflect.StringKind && fd.Name() != "pattern"
		}) {
			s := k.String()
			for _, n := range []int{8, 20, 70} {
				for i := 0; i <= n; i++ {
					out = append(out, strings.Repeat("q", i)+s+strings.Repeat("r", n-i))
					if len(s) > 1 { // torn by one character
						out = append(out, strings.Repeat("q", i)+s[:1]+"#"+s[1:]+strings.Repeat("r", n-i))
					}
				}
			}
			// an overlap: the beginning of the constant, then all of it
			for i := 1; i < len(s); i++ {
				out = append(out, s[:i]+s, s+s[i:], "q"+s[:i]+s+"r", s[:i]+s[:i]+s)
			}
		}
	}
	return out
}

func recursive(md protoreflect.MessageDescriptor) bool {
	for i := 0; i < md.Fields().Len(); i++ {
		f := md.Fields().Get(i)
		if f.Message() == md || f.IsMap() && f.MapValue().Message() == md {
			return true
		}
	}
	return false
}

func bigBytes(br *validate.BytesRules, c *Cfg) (out [][]byte) {
	add := func(s string) { out = append(out, []byte(s)) }
	var ks []uint64
	if br != nil {
		for _, k := range constants(br.ProtoReflect(), func(fd protoreflect.FieldDescriptor) bool { return fd.Kind() == protoreflect.Uint64Kind }) {
			ks = append(ks, k.Uint())
		}
		for _, k := range constants(br.ProtoReflect(), func(fd protoreflect.FieldDescriptor) bool { return fd.Kind() == protoreflect.BytesKind }) {
			s := string(k.Bytes())
			for _, n := range []int{9, 21, 71} {
				for i := 0; i <= n; i++ {
					add(strings.Repeat("q", i) + s + strings.Repeat("\x00", n-i))
					if len(s) > 1 {
						add(strings.Repeat("q", i) + s[:1] + "#" + s[1:] + strings.Repeat("r", n-i))
					}
				}
			}
			for i := 1; i < len(s); i++ {
				add(s[:i] + s)
				add(s + s[i:])
				add("q" + s[:i] + s + "r")
				add(s[:i] + s[:i] + s)
			}
		}
	}
	for _, k := range append(ks, 16, 64, 128, 256, 1000) {
		if k <= 200000 {
			for _, n := range []int{int(k) - 1, int(k), int(k) + 1} {
				if n > 0 {
					add(strings.Repeat("\x7f", n))
					add(strings.Repeat("\xe2\x82\xac", n/3))
				}
			}
		}
	}
	for i := 0; i < 256; i++ {
		add(string([]byte{byte(i)}))
		add(string([]byte{'a', byte(i)}))
		add(string([]byte{byte(i), 'a'}))
	}
	return out
}
