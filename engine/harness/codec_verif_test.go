package kafkamock

// Bounded search for concrete failing inputs of the codec (replay of failed
// obligations, and validation of the verifier's assumptions). Its reference
// encoder is written from the wire format alone.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"testing"
	"time"
	"unsafe"

	"github.com/google/uuid"
)

func vfReport(prop, what string, info map[string]any) {
	info["property"] = prop
	info["what"] = what
	b, _ := json.MarshalIndent(info, "", " ")
	if p := os.Getenv("VERIF_OUT"); p != "" {
		os.WriteFile(p, b, 0644)
	}
	fmt.Printf("FAILING-INPUT %s\n", b)
	os.Exit(3)
}

func vfEnv(name string, def int) int {
	n, err := strconv.Atoi(os.Getenv(name))
	if err != nil {
		return def
	}
	return n
}

func vfOwn(t reflect.Type) bool {
	return t.PkgPath() == reflect.TypeOf(kafkaField{}).PkgPath()
}

func vfVarint(u uint64) []byte {
	var out []byte
	for u >= 128 {
		out = append(out, byte(u)|128)
		u >>= 7
	}
	return append(out, byte(u))
}

func vfZig32(v int32) []byte { return vfVarint(uint64(uint32(v<<1) ^ uint32(v>>31))) }
func vfZig64(v int64) []byte { return vfVarint(uint64(v<<1) ^ uint64(v>>63)) }

func vfBe(n int, v uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return b[8-n:]
}

// the wire encoding of v, from the format description
func vfEnc(v reflect.Value) []byte {
	t := v.Type()
	own := vfOwn(t)
	name := ""
	if own {
		name = t.Name()
	}
	if t == reflect.TypeOf(uuid.UUID{}) {
		b := v.Interface().(uuid.UUID)
		return append([]byte{}, b[:]...)
	}
	switch t.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return []byte{1}
		}
		return []byte{0}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		switch name {
		case "VarInt":
			return vfZig32(int32(v.Int()))
		case "VarInt64":
			return vfZig64(v.Int())
		}
		n := t.Bits() / 8
		if t.Kind() == reflect.Int {
			n = 4
		}
		return vfBe(n, uint64(v.Int()))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		switch name {
		case "VarUint", "VarUint64":
			return vfVarint(v.Uint())
		}
		n := t.Bits() / 8
		if t.Kind() == reflect.Uint {
			n = 4
		}
		return vfBe(n, v.Uint())
	case reflect.Float64:
		return vfBe(8, math.Float64bits(v.Float()))
	case reflect.String:
		s := v.String()
		if name == "CompactString" {
			return append(vfZig32(int32(len(s)+1)), s...)
		}
		return append(vfBe(2, uint64(len(s))), s...)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			if name == "CompactBytes" || name == "CompactNullableBytes" {
				if v.IsNil() {
					return []byte{0}
				}
				return append(vfZig32(int32(len(b)+1)), b...)
			}
			if v.IsNil() {
				return vfBe(4, math.MaxUint64)
			}
			return append(vfBe(4, uint64(len(b))), b...)
		}
		if v.IsNil() {
			return vfBe(4, math.MaxUint64)
		}
		out := vfBe(4, uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			out = append(out, vfEnc(v.Index(i))...)
		}
		return out
	case reflect.Ptr:
		if name == "NullableString" || name == "CompactNullableString" {
			if v.IsNil() {
				if name == "NullableString" {
					return []byte{255, 255}
				}
				return []byte{0}
			}
			s := v.Elem().String()
			if name == "NullableString" {
				return append(vfBe(2, uint64(len(s))), s...)
			}
			return append(vfZig32(int32(len(s)+1)), s...)
		}
		return vfEnc(v.Elem())
	case reflect.Struct:
		if name == "messageSetV1" {
			ms := v.FieldByName("msgs")
			var out []byte
			for i := 0; i < ms.Len(); i++ {
				out = append(out, vfEnc(ms.Index(i))...)
			}
			return append(vfBe(4, uint64(v.FieldByName("totalSize").Int())), out...)
		}
		var out []byte
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); t.Field(i).IsExported() {
				if t.Field(i).Tag.Get("kafka") == "compact" && f.Kind() == reflect.Slice && f.Type().Name() == "" && f.Type().Elem().Kind() != reflect.Uint8 {
					if f.IsNil() {
						out = append(out, 0)
						continue
					}
					out = append(out, vfZig32(int32(f.Len()+1))...)
					for k := 0; k < f.Len(); k++ {
						out = append(out, vfEnc(f.Index(k))...)
					}
					continue
				}
				out = append(out, vfEnc(f)...)
			}
		}
		return out
	}
	panic("unsupported " + t.String())
}

func vfInt(r *rand.Rand, bits int) uint64 {
	switch r.Intn(5) {
	case 0:
		return uint64(r.Intn(3)) - 1
	case 1:
		return uint64(1)<<r.Intn(bits) - uint64(r.Intn(2))
	case 2:
		return ^(uint64(1)<<r.Intn(bits) - uint64(r.Intn(2)))
	case 3:
		return r.Uint64() >> r.Intn(64)
	}
	return r.Uint64()
}

func vfBytes(r *rand.Rand) []byte {
	n := 0
	switch r.Intn(8) {
	case 0:
	case 1, 2, 3, 4:
		n = r.Intn(6)
	case 5, 6:
		n = 55 + r.Intn(20)
	case 7:
		n = []int{127, 128, 255, 256, 4095, 4096, 5000, 8191, 8192, 32766, 32767}[r.Intn(11)]
	}
	b := make([]byte, n)
	r.Read(b)
	return b
}

// an arbitrary value of t
func vfGen(r *rand.Rand, t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	own := vfOwn(t)
	if t == reflect.TypeOf(uuid.UUID{}) {
		var u uuid.UUID
		r.Read(u[:])
		return reflect.ValueOf(u)
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 1)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(vfInt(r, t.Bits())) << (64 - t.Bits()) >> (64 - t.Bits()))
	case reflect.Int:
		v.SetInt(int64(int32(vfInt(r, 32))))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(vfInt(r, t.Bits()) << (64 - t.Bits()) >> (64 - t.Bits()))
	case reflect.Uint:
		v.SetUint(uint64(uint32(vfInt(r, 32))))
	case reflect.Float64:
		if r.Intn(2) == 0 {
			v.SetFloat(math.Float64frombits(r.Uint64()))
		} else {
			v.SetFloat([]float64{0, math.Copysign(0, -1), math.Inf(1), math.NaN(), 1.5, -1e300, 5e-324}[r.Intn(7)])
		}
	case reflect.String:
		v.SetString(string(vfBytes(r)))
	case reflect.Slice:
		if r.Intn(6) == 0 {
			return v
		}
		if t.Elem().Kind() == reflect.Uint8 {
			v.SetBytes(vfBytes(r))
			return v
		}
		n := r.Intn(4)
		if depth > 2 {
			n = r.Intn(2)
		} else if r.Intn(10) == 0 {
			n = 20 + r.Intn(300)
			if t.Elem().Kind() == reflect.Struct || t.Elem().Kind() == reflect.Slice {
				n = 4 + r.Intn(20)
			}
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			v.Index(i).Set(vfGen(r, t.Elem(), depth+1))
		}
	case reflect.Ptr:
		if own && r.Intn(4) == 0 {
			return v
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(vfGen(r, t.Elem(), depth))
		v.Set(p.Convert(t))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			f.Set(vfGen(r, f.Type(), depth+1))
		}
	default:
		panic("unsupported " + t.String())
	}
	return v
}

// equality that tells null from empty, bit for bit
func vfEq(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !vfEq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !vfEq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return vfEq(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !vfEq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	}
	if a.CanInt() {
		return a.Int() == b.Int()
	}
	return a.Uint() == b.Uint()
}

func vfShow(v reflect.Value) string {
	b, err := json.Marshal(v.Interface())
	s := string(b)
	if err != nil {
		s = fmt.Sprintf("%#v", v.Interface())
	}
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

func vfHex(b []byte) string {
	if len(b) > 2000 {
		return hex.EncodeToString(b[:2000]) + "..."
	}
	return hex.EncodeToString(b)
}

func vfEncode(v any) (out []byte, p any) {
	defer func() { p = recover() }()
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	encodeObject(w, v)
	w.Flush()
	return buf.Bytes(), nil
}

func vfDecode(data []byte, off int, t reflect.Type) (next int, obj any, p any) {
	defer func() { p = recover() }()
	size := len(data)
	if size < 16 {
		size = 16
	}
	r := bufio.NewReaderSize(bytes.NewReader(data), size)
	next, obj = peekObject(r, off, t)
	return
}

func vfDecodable(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Slice:
		if vfOwn(t) && t.Name() == "CompactBytes" {
			return false
		}
		return t.Elem().Kind() == reflect.Uint8 || vfDecodable(t.Elem())
	case reflect.Ptr:
		return vfOwn(t) || vfDecodable(t.Elem())
	case reflect.Struct:
		if t.Name() == "messageSetV1" {
			return false
		}
		for i := 0; i < t.NumField(); i++ {
			if !vfDecodable(t.Field(i).Type) {
				return false
			}
		}
	}
	return true
}

func vfCheckValue(prop string, r *rand.Rand, v reflect.Value) {
	t := v.Type()
	want := vfEnc(v)
	info := func() map[string]any {
		return map[string]any{"type": t.String(), "value": vfShow(v), "encoding": vfHex(want)}
	}
	if prop != "C05" {
		got, p := vfEncode(v.Interface())
		if p != nil {
			m := info()
			m["panic"] = fmt.Sprint(p)
			vfReport(prop, "encoding panics", m)
		}
		if !bytes.Equal(got, want) {
			m := info()
			m["got"] = vfHex(got)
			vfReport(prop, "encoding differs from the wire format", m)
		}
	}
	if !vfDecodable(t) {
		return
	}
	pre := make([]byte, r.Intn(20))
	suf := make([]byte, r.Intn(20))
	r.Read(pre)
	r.Read(suf)
	buf := append(append(append([]byte{}, pre...), want...), suf...)
	next, obj, p := vfDecode(buf, len(pre), t)
	m := info()
	m["data"] = vfHex(buf)
	m["offset"] = len(pre)
	if p != nil {
		m["panic"] = fmt.Sprint(p)
		vfReport(prop, "decoding panics", m)
	}
	if next != len(pre)+len(want) {
		m["next"] = next
		vfReport(prop, "decoding does not consume exactly the encoding", m)
	}
	if prop != "C05" {
		ov := reflect.ValueOf(obj)
		if obj == nil {
			if t.Kind() == reflect.Slice && v.IsNil() {
				return
			}
		}
		if t.Kind() == reflect.Ptr && !vfOwn(t) && ov.IsValid() && ov.Kind() == reflect.Struct {
			v = v.Elem()
		}
		if obj == nil || !vfEq(ov, v) {
			m["decoded"] = fmt.Sprintf("%T %#v", obj, obj)
			vfReport(prop, "decoding returns a different value", m)
		}
	}
	for k := 0; k < 12 && len(want) > 0; k++ {
		cut := r.Intn(len(want))
		if k == 0 {
			cut = len(want) - 1
		}
		b := buf[:len(pre)+cut]
		next, _, p := vfDecode(b, len(pre), t)
		if p != nil || next >= 0 {
			m["data"] = vfHex(b)
			m["next"] = next
			m["panic"] = fmt.Sprint(p)
			vfReport(prop, "a cut-off encoding is not rejected", m)
		}
	}
}

func vfCheckBytes(r *rand.Rand, t reflect.Type) {
	if !vfDecodable(t) {
		return
	}
	var b []byte
	if r.Intn(3) == 0 {
		b = make([]byte, r.Intn(60))
		for i := range b {
			b[i] = []byte{0, 0, 0, 1, 2, 255, 127, 128, byte(r.Intn(256))}[r.Intn(9)]
		}
	} else {
		b = vfEnc(vfGen(r, t, 1))
		for k := r.Intn(4); k > 0 && len(b) > 0; k-- {
			b[r.Intn(len(b))] = []byte{0, 1, 255, 127, 128, byte(r.Intn(256))}[r.Intn(6)]
		}
		b = b[:len(b)-r.Intn(len(b)+1)*r.Intn(2)]
	}
	off := 0
	if len(b) > 0 && r.Intn(3) == 0 {
		off = r.Intn(len(b))
	}
	next, obj, p := vfDecode(b, off, t)
	m := map[string]any{"type": t.String(), "data": vfHex(b), "offset": off, "next": next}
	if p != nil {
		m["panic"] = fmt.Sprint(p)
		vfReport("C05", "decoding panics", m)
	}
	if next >= 0 && (next < off || next > len(b)) {
		vfReport("C05", "position outside the data", m)
	}
	if next >= 0 {
		e := len(b)
		// bytes past the position must not matter
		c := append(append([]byte{}, b[:next]...), make([]byte, e-next)...)
		n2, o2, p2 := vfDecode(c, off, t)
		if p2 != nil || n2 != next || (obj == nil) != (o2 == nil) || obj != nil && !vfEq(reflect.ValueOf(obj), reflect.ValueOf(o2)) {
			m["other"] = vfHex(c)
			vfReport("C05", "bytes after the reported position matter", m)
		}
	}
}

func vfCheckVarint(r *rand.Rand, t reflect.Type) {
	limit := (t.Bits() + 6) / 7
	b := make([]byte, r.Intn(14))
	for i := range b {
		b[i] = byte(r.Intn(256)) | 128
		if r.Intn(4) == 0 {
			b[i] &= 127
		}
	}
	want := -1
	for k := 0; k < limit && k < len(b); k++ {
		if b[k] < 128 {
			want = k + 1
			break
		}
	}
	next, _, p := vfDecode(b, 0, t)
	if p != nil || (next < 0) != (want < 0) || next >= 0 && next != want {
		vfReport("C02", "groups consumed", map[string]any{"type": t.String(), "data": vfHex(b), "next": next, "want": want, "panic": fmt.Sprint(p)})
	}
}

func vfCheckTags(r *rand.Rand) {
	n := r.Intn(5)
	if r.Intn(10) == 0 {
		n = 100 + r.Intn(100)
	}
	tags := map[int]any{}
	fields := map[int]*kafkaField{}
	decoys := map[int]*kafkaField{}
	var ids []int
	for i := 0; i < n; i++ {
		id := int(uint32(vfInt(r, 32)))
		if r.Intn(2) == 0 {
			id = r.Intn(10)
		}
		if _, dup := tags[id]; dup {
			continue
		}
		t := verifTypes[r.Intn(len(verifTypes))]
		for !vfDecodable(t) || t.Kind() == reflect.Slice {
			t = verifTypes[r.Intn(len(verifTypes))]
		}
		v := vfGen(r, t, 2)
		tags[id] = v.Interface()
		ids = append(ids, id)
		if r.Intn(2) == 0 {
			fields[id] = &kafkaField{valType: t}
		}
		if r.Intn(3) == 0 {
			decoys[r.Intn(1000)+20000] = &kafkaField{valType: t}
		}
	}
	for id, f := range decoys {
		if _, used := tags[id]; !used {
			fields[id] = f
		}
	}
	sort.Ints(ids)
	want := vfVarint(uint64(len(ids)))
	for _, id := range ids {
		e := vfEnc(reflect.ValueOf(tags[id]))
		want = append(want, vfVarint(uint64(uint32(id)))...)
		want = append(want, vfVarint(uint64(len(e)))...)
		want = append(want, e...)
	}
	m := map[string]any{"ids": ids, "encoding": vfHex(want)}
	func() {
		defer func() {
			if p := recover(); p != nil {
				m["panic"] = fmt.Sprint(p)
				vfReport("C06", "the tag codec panics", m)
			}
		}()
		for rep := 0; rep < 2; rep++ {
			var buf bytes.Buffer
			w := bufio.NewWriter(&buf)
			encodeTags(w, tags)
			w.Flush()
			if !bytes.Equal(buf.Bytes(), want) {
				m["got"] = vfHex(buf.Bytes())
				vfReport("C06", "tag section differs from the format", m)
			}
		}
		pre := make([]byte, r.Intn(20))
		suf := make([]byte, r.Intn(20))
		r.Read(pre)
		r.Read(suf)
		data := append(append(append([]byte{}, pre...), want...), suf...)
		size := len(data)
		if size < 16 {
			size = 16
		}
		rd := bufio.NewReaderSize(bytes.NewReader(data), size)
		next, got := peekTags(rd, len(pre), fields)
		if next != len(pre)+len(want) {
			m["next"] = next
			m["offset"] = len(pre)
			vfReport("C06", "decoding does not end right after the section", m)
		}
		if len(got) != len(ids) {
			m["decoded"] = len(got)
			vfReport("C06", "decoded tags", m)
		}
		for _, id := range ids {
			g, ok := got[id]
			v := reflect.ValueOf(tags[id])
			if f := fields[id]; f == nil {
				raw, isb := g.([]byte)
				if !ok || !isb || !bytes.Equal(raw, vfEnc(v)) {
					m["id"] = id
					m["decoded"] = fmt.Sprintf("%#v", g)
					vfReport("C06", "an undeclared tag is not kept whole", m)
				}
			} else {
				gv := reflect.ValueOf(g)
				if v.Kind() == reflect.Ptr && !vfOwn(v.Type()) && gv.IsValid() && gv.Kind() == reflect.Struct {
					v = v.Elem()
				}
				if !ok || g == nil || !vfEq(gv, v) {
					m["id"] = id
					m["decoded"] = fmt.Sprintf("%#v", g)
					vfReport("C06", "a declared tag is decoded differently", m)
				}
			}
		}
		for k := 0; k < 6 && len(want) > 0; k++ {
			cut := r.Intn(len(want))
			rd := bufio.NewReaderSize(bytes.NewReader(data[:len(pre)+cut]), size)
			next, _ := peekTags(rd, len(pre), fields)
			if next >= 0 {
				m["cut"] = cut
				vfReport("C06", "a cut-off tag section is accepted", m)
			}
		}
	}()
}

func TestVerifCodec(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("run by the verifier")
	}
	r := rand.New(rand.NewSource(int64(vfEnv("VERIF_SEED", 1))))
	stop := time.Now().Add(time.Duration(vfEnv("VERIF_BUDGET_MS", 2000)) * time.Millisecond)
	n := 0
	for time.Now().Before(stop) || n < 2*len(verifTypes) {
		tt := verifTypes[n%len(verifTypes)]
		switch prop {
		case "C05":
			if n < len(verifTypes) {
				vfCheckValue(prop, r, vfGen(r, tt, 0))
			}
			vfCheckBytes(r, tt)
			if n%8 == 0 {
				vfCheckValue(prop, r, vfGen(r, tt, 1))
			}
		case "C06":
			vfCheckTags(r)
		case "C02":
			vfCheckValue(prop, r, vfGen(r, tt, 0))
			vfCheckVarint(r, tt)
		default:
			vfCheckValue(prop, r, vfGen(r, tt, 0))
		}
		n++
	}
	fmt.Printf("EXPLORED %d\n", n)
}
