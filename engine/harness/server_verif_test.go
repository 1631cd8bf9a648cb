package kafkamock

// Bounded search for concrete failing histories of the server: a client that speaks the wire
// protocol with its own codec, and a reference svModel of the store. Servers run in child
// processes, because a svRejected request ends the process that serves it.

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/jimsnab/go-lane"
)

const svPatience = 25 * time.Second

func svReport(what string, info map[string]any) {
	if info == nil {
		info = map[string]any{}
	}
	info["property"] = os.Getenv("VERIF_PROP")
	info["what"] = what
	info["history"] = svTail()
	b, _ := json.MarshalIndent(info, "", " ")
	if p := os.Getenv("VERIF_OUT"); p != "" {
		os.WriteFile(p, b, 0644)
	}
	fmt.Printf("FAILING-INPUT %s\n", b)
	os.Exit(3)
}

func svEnv(name string, def int) int {
	n, err := strconv.Atoi(os.Getenv(name))
	if err != nil {
		return def
	}
	return n
}

var (
	svLogMu sync.Mutex
	svOps   []string
	svCount int64
)

func svLog(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	svLogMu.Lock()
	svOps = append(svOps, s)
	if len(svOps) > 400 {
		svOps = svOps[200:]
	}
	svCount++
	svLogMu.Unlock()
	if os.Getenv("VERIF_CHILD") != "" {
		fmt.Println("OP " + s)
	}
}

func svTail() []string {
	svLogMu.Lock()
	defer svLogMu.Unlock()
	n := len(svOps) - 40
	if n < 0 {
		n = 0
	}
	return append([]string{}, svOps[n:]...)
}

// ---------------------------------------------------------------- wire format
type svWb struct{ bytes.Buffer }

func (w *svWb) i8(v int8)   { w.WriteByte(byte(v)) }
func (w *svWb) i16(v int16) { binary.Write(w, binary.BigEndian, v) }
func (w *svWb) i32(v int32) { binary.Write(w, binary.BigEndian, v) }
func (w *svWb) i64(v int64) { binary.Write(w, binary.BigEndian, v) }
func (w *svWb) str(s string) {
	w.i16(int16(len(s)))
	w.WriteString(s)
}
func (w *svWb) nstr(s *string) {
	if s == nil {
		w.i16(-1)
	} else {
		w.str(*s)
	}
}
func (w *svWb) blob(b []byte) {
	if b == nil {
		w.i32(-1)
	} else {
		w.i32(int32(len(b)))
		w.Write(b)
	}
}

var svErrShort = errors.New("body ends early")

type svRb struct {
	b   []byte
	err error
}

func (r *svRb) take(n int) []byte {
	if r.err != nil || n < 0 || n > len(r.b) {
		r.err = svErrShort
		return make([]byte, 8)
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *svRb) i8() int8   { return int8(r.take(1)[0]) }
func (r *svRb) i16() int16 { return int16(binary.BigEndian.Uint16(r.take(2))) }
func (r *svRb) i32() int32 { return int32(binary.BigEndian.Uint32(r.take(4))) }
func (r *svRb) i64() int64 { return int64(binary.BigEndian.Uint64(r.take(8))) }
func (r *svRb) str() string {
	n := r.i16()
	if r.err != nil {
		return ""
	}
	return string(r.take(int(n)))
}
func (r *svRb) nstr() *string {
	n := r.i16()
	if r.err != nil || n == -1 {
		return nil
	}
	s := string(r.take(int(n)))
	return &s
}
func (r *svRb) blob() []byte {
	n := r.i32()
	if r.err != nil || n == -1 {
		return nil
	}
	return append([]byte{}, r.take(int(n))...)
}
func (r *svRb) count() int {
	n := r.i32()
	if r.err != nil || n < -1 || int(n) > len(r.b)+1 && n > 1<<20 {
		r.err = svErrShort
		return 0
	}
	return int(n)
}
func (r *svRb) end() error {
	if r.err == nil && len(r.b) != 0 {
		return fmt.Errorf("%d bytes after the response body", len(r.b))
	}
	return r.err
}

func svRequest(key, ver int16, corr int32, client string, body []byte) []byte {
	w := &svWb{}
	w.i16(key)
	w.i16(ver)
	w.i32(corr)
	w.str(client)
	w.Write(body)
	f := &svWb{}
	f.i32(int32(w.Len()))
	f.Write(w.Bytes())
	return f.Bytes()
}

// ---------------------------------------------------------------- connections
type svCx struct {
	c    net.Conn
	corr int32
	rnd  *rand.Rand
}

func svDial(port int, rnd *rand.Rand) *svCx {
	var err error
	for t := time.Now(); time.Since(t) < svPatience; time.Sleep(5 * time.Millisecond) {
		var c net.Conn
		c, err = net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err == nil {
			return &svCx{c: c, rnd: rand.New(rand.NewSource(rnd.Int63())), corr: rnd.Int31()}
		}
	}
	svReport("the server does not accept connections", map[string]any{"error": err.Error()})
	return nil
}

func (c *svCx) close() { c.c.Close() }

func (c *svCx) read() (corr int32, body []byte, err error) {
	c.c.SetReadDeadline(time.Now().Add(svPatience))
	var h [8]byte
	if _, err = io.ReadFull(c.c, h[:]); err != nil {
		return
	}
	n := int32(binary.BigEndian.Uint32(h[:4]))
	corr = int32(binary.BigEndian.Uint32(h[4:]))
	if n < 4 || n > 1<<28 {
		return corr, nil, fmt.Errorf("response size %d", n)
	}
	body = make([]byte, n-4)
	_, err = io.ReadFull(c.c, body)
	return
}

func (c *svCx) call(key, ver int16, body []byte) *svRb {
	c.corr += 1 + c.rnd.Int31n(1000)
	client := []string{"", "client", strings.Repeat("x", c.rnd.Intn(300))}[c.rnd.Intn(3)]
	req := svRequest(key, ver, c.corr, client, body)
	svLog("request api %d v%d corr %d body %x", key, ver, c.corr, svClip(body))
	if _, err := c.c.Write(req); err != nil {
		svReport("cannot send a request", map[string]any{"api": key, "error": err.Error()})
	}
	corr, b, err := c.read()
	if err != nil {
		svReport("no complete response to a valid request", map[string]any{"api": key, "version": ver, "request": fmt.Sprintf("%x", svClip(req)), "error": err.Error()})
	}
	if corr != c.corr {
		svReport("response carries another correlation id", map[string]any{"api": key, "sent": c.corr, "got": corr})
	}
	return &svRb{b: b}
}

func svClip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// ---------------------------------------------------------------- server
type svSrv struct {
	km     *KafkaMock
	port   int
	cancel context.CancelFunc
}

// a port below the ephemeral range, claimed machine-wide by an abstract socket that lives as long
// as this process: no other process of a search may listen on it or dial it meanwhile
func svFreePort() int {
	for i := 0; i < 20000; i++ {
		p := 10000 + rand.Intn(22000)
		claim, err := net.Listen("unix", fmt.Sprintf("@kafkamock-verif-port-%d", p))
		if err != nil {
			continue
		}
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			claim.Close()
			continue
		}
		l.Close()
		svClaimMu.Lock()
		svClaims = append(svClaims, claim)
		if len(svClaims) > 64 {
			svClaims[0].Close()
			svClaims = svClaims[1:]
		}
		svClaimMu.Unlock()
		return p
	}
	panic("verif: no free port")
}

var (
	svClaimMu sync.Mutex
	svClaims  []net.Listener
)

func svNewSrv(start bool) *svSrv {
	ctx, cancel := context.WithCancel(context.Background())
	s := &svSrv{port: svFreePort(), cancel: cancel}
	s.km = NewKafkaMock(lane.NewNullLane(ctx), uint(s.port))
	if start {
		s.km.Start()
	}
	return s
}

func svWithin(what string, f func()) {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(svPatience):
		svReport("does not finish: "+what, nil)
	}
}

func (s *svSrv) stop() {
	svWithin("stopping the server", func() {
		s.km.RequestStop()
		s.km.WaitForTermination()
	})
}

// ---------------------------------------------------------------- svModel
type svMrec struct {
	ts         int64
	key, value []byte
}
type svMpart struct {
	recs []svMrec
	co   map[string]int64
}
type svModel map[string]map[int32]*svMpart

func (m svModel) create(t string, p int32) *svMpart {
	if m[t] == nil {
		m[t] = map[int32]*svMpart{}
	}
	if m[t][p] == nil {
		m[t][p] = &svMpart{co: map[string]int64{}}
	}
	return m[t][p]
}
func (m svModel) part(t string, p int32) *svMpart {
	if m[t] == nil {
		return nil
	}
	return m[t][p]
}

var svTopics = []string{"a", "b", "orders", "", "topic-with-a-longer-name"}
var svParts = []int32{0, 1, 2, 7, 1000000}
var svGroups = []string{"g", "h", ""}

func svPick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

func svAnyTopic(r *rand.Rand) string {
	if r.Intn(6) == 0 {
		return "missing"
	}
	return svPick(r, svTopics)
}
func svAnyPart(r *rand.Rand) int32 {
	if r.Intn(6) == 0 {
		return []int32{99, -1, math.MaxInt32}[r.Intn(3)]
	}
	return svPick(r, svParts)
}
func svAnyBytes(r *rand.Rand) []byte {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	b := make([]byte, r.Intn(40))
	r.Read(b)
	if r.Intn(40) == 0 {
		b = bytes.Repeat([]byte{7, 9}, 3000)
	}
	return b
}

func (s *svSrv) post(m svModel, r *rand.Rand) {
	t, p := svPick(r, svTopics), svPick(r, svParts)
	k, v := svAnyBytes(r), svAnyBytes(r)
	var ts time.Time
	switch r.Intn(4) {
	case 0:
		ts = time.UnixMilli(int64(r.Intn(50)))
	case 1:
		ts = time.UnixMilli(1700000000000 + int64(r.Intn(5000))).Add(time.Duration(r.Intn(1000000)))
	case 2:
		ts = time.UnixMilli(r.Int63() >> 12)
	default:
		ts = time.UnixMilli(-int64(r.Intn(100000)))
	}
	svLog("post %q/%d ts %d key %x value %x", t, p, ts.UnixMilli(), svClip(k), svClip(v))
	s.km.ExtendedPost(t, int(p), k, v, nil, ts)
	mp := m.create(t, p)
	mp.recs = append(mp.recs, svMrec{ts.UnixMilli(), k, v})
}

// svFetchAll reads a whole partition over the wire
func svFetchAll(c *svCx, t string, p int32) []svMrec {
	w := &svWb{}
	w.i32(-1)
	w.i32(0)
	w.i32(0)
	w.i32(1)
	w.str(t)
	w.i32(1)
	w.i32(p)
	w.i64(0)
	w.i32(math.MaxInt32)
	r := c.call(1, 2, w.Bytes())
	rs := svDecFetch(r)
	if r.err != nil || len(rs) != 1 || len(rs[0].parts) != 1 {
		svReport("malformed fetch response", map[string]any{"error": fmt.Sprint(r.end())})
	}
	var out []svMrec
	for _, x := range rs[0].parts[0].msgs {
		out = append(out, svMrec{x.ts, x.key, x.value})
	}
	return out
}

type svWmsg struct {
	offset     int64
	size       int32
	crc        uint32
	magic, att int8
	ts         int64
	key, value []byte
	raw        []byte
}
type svWpart struct {
	idx  int32
	code int16
	hw   int64
	size int32
	raw  []byte
	msgs []svWmsg
}
type svWtopic struct {
	name  string
	parts []svWpart
}

func svDecFetch(r *svRb) (out []svWtopic) {
	r.i32()
	for n := r.count(); n > 0 && r.err == nil; n-- {
		t := svWtopic{name: r.str()}
		for k := r.count(); k > 0 && r.err == nil; k-- {
			p := svWpart{idx: r.i32(), code: r.i16(), hw: r.i64(), size: r.i32()}
			p.raw = r.take(int(p.size))
			q := &svRb{b: p.raw}
			for len(q.b) > 0 && q.err == nil && r.err == nil {
				whole := q.b
				m := svWmsg{offset: q.i64(), size: q.i32()}
				m.crc = uint32(q.i32())
				m.magic, m.att = q.i8(), q.i8()
				m.ts = q.i64()
				m.key, m.value = q.blob(), q.blob()
				if q.err == nil {
					m.raw = whole[:len(whole)-len(q.b)]
					p.msgs = append(p.msgs, m)
				}
			}
			if q.err != nil && r.err == nil {
				r.err = errors.New("message set does not end with a message")
			}
			t.parts = append(t.parts, p)
		}
		out = append(out, t)
	}
	return
}

func svSame(a, b []byte) bool { return (a == nil) == (b == nil) && bytes.Equal(a, b) }

func svSameRecs(a, b []svMrec) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d records instead of %d", len(a), len(b))
	}
	for i := range a {
		if a[i].ts != b[i].ts || !svSame(a[i].key, b[i].key) || !svSame(a[i].value, b[i].value) {
			return fmt.Sprintf("record %d is ts %d key %x value %x instead of ts %d key %x value %x", i, a[i].ts, svClip(a[i].key), svClip(a[i].value), b[i].ts, svClip(b[i].key), svClip(b[i].value))
		}
	}
	return ""
}

func (s *svSrv) checkStore(c *svCx, m svModel) {
	names := make([]string, 0, len(m))
	for t := range m {
		names = append(names, t)
	}
	sort.Strings(names)
	for i, t := range names {
		if len(names) > 40 && i > 20 && i%7 != 0 && i < len(names)-5 {
			continue
		}
		var ps []int32
		for p := range m[t] {
			ps = append(ps, p)
		}
		sort.Slice(ps, func(a, b int) bool { return ps[a] < ps[b] })
		for k, p := range ps {
			if len(ps) > 40 && k > 20 && k%7 != 0 && k < len(ps)-5 {
				continue
			}
			if d := svSameRecs(svFetchAll(c, t, p), m[t][p].recs); d != "" {
				svReport("stored records differ: "+d, map[string]any{"topic": t, "partition": p})
			}
		}
	}
}

// svBulk makes the store large in one direction
func svBulk(s *svSrv, m svModel, r *rand.Rand) {
	n := 20 + r.Intn(300)
	switch r.Intn(4) {
	case 0:
		svLog("create %d topics", n)
		for i := 0; i < n; i++ {
			t := fmt.Sprintf("bulk%d", i)
			s.km.CreatePartitionTopics([]string{t}, i%3)
			m.create(t, int32(i%3))
		}
	case 1:
		t := svPick(r, svTopics)
		svLog("create %d partitions of %q", n, t)
		for i := 0; i < n; i++ {
			s.km.CreatePartitionTopics([]string{t}, i)
			m.create(t, int32(i))
		}
	case 2:
		t, p := svPick(r, svTopics), svPick(r, svParts)
		n *= 1 + r.Intn(12)
		svLog("post %d records to %q/%d", n, t, p)
		mp := m.create(t, p)
		for i := 0; i < n; i++ {
			k, v := []byte(strconv.Itoa(i)), []byte("v")
			s.km.ExtendedPost(t, int(p), k, v, nil, time.UnixMilli(int64(i)))
			mp.recs = append(mp.recs, svMrec{int64(i), k, v})
		}
	default:
		t, p := svPick(r, svTopics), svPick(r, svParts)
		svLog("offsets of %d groups on %q/%d", n, t, p)
		s.km.CreatePartitionTopics([]string{t}, int(p))
		mp := m.create(t, p)
		for i := 0; i < n; i++ {
			g := fmt.Sprintf("g%d", i)
			s.km.SetConsumerGroupOffset(t, int(p), g, int64(i))
			mp.co[g] = int64(i)
		}
	}
}

func (s *svSrv) checkOffsets(c *svCx, m svModel) {
	groups := svGroups
	for _, ps := range m {
		for _, mp := range ps {
			if len(mp.co) > 10 {
				groups = append(append([]string{}, svGroups...), "g0", "g7", "g19", fmt.Sprintf("g%d", len(mp.co)-3))
			}
		}
	}
	for _, g := range groups {
		n := 0
		for t, ps := range m {
			for p, mp := range ps {
				if n++; n > 60 {
					break
				}
				got := svOffsets(c, g, map[string][]int32{t: {p}})
				if v, ok := got[t][p]; !ok || v != mp.co[g] {
					svReport("committed offset differs", map[string]any{"group": g, "topic": t, "partition": p, "want": mp.co[g], "got": v, "reported": ok})
				}
			}
		}
	}
}

func svOffsetsRaw(c *svCx, g string, names []string, parts [][]int32) (r *svRb) {
	w := &svWb{}
	w.str(g)
	w.i32(int32(len(names)))
	for i, n := range names {
		w.str(n)
		w.i32(int32(len(parts[i])))
		for _, p := range parts[i] {
			w.i32(p)
		}
	}
	return c.call(9, 1, w.Bytes())
}

func svOffsets(c *svCx, g string, q map[string][]int32) map[string]map[int32]int64 {
	var names []string
	var parts [][]int32
	for t, ps := range q {
		names = append(names, t)
		parts = append(parts, ps)
	}
	r := svOffsetsRaw(c, g, names, parts)
	out := map[string]map[int32]int64{}
	for n := r.count(); n > 0 && r.err == nil; n-- {
		t := r.str()
		if out[t] == nil {
			out[t] = map[int32]int64{}
		}
		for k := r.count(); k > 0 && r.err == nil; k-- {
			p := r.i32()
			o := r.i64()
			r.nstr()
			r.i16()
			out[t][p] = o
		}
	}
	if err := r.end(); err != nil {
		svReport("malformed offset fetch response", map[string]any{"error": err.Error()})
	}
	return out
}

type svCommit struct {
	t string
	p int32
	o int64
}

func svCommitBody(g string, topics []string, parts [][]svCommit) []byte {
	w := &svWb{}
	w.str(g)
	w.i32(1)
	w.str("m")
	w.i64(0)
	w.i32(int32(len(topics)))
	for i, t := range topics {
		w.str(t)
		w.i32(int32(len(parts[i])))
		for _, c := range parts[i] {
			w.i32(c.p)
			w.i64(c.o)
			w.nstr(nil)
		}
	}
	return w.Bytes()
}

func (m svModel) commit(g string, c svCommit) int16 {
	mp := m.part(c.t, c.p)
	if mp == nil {
		return 3
	}
	if c.o > mp.co[g] {
		mp.co[g] = c.o
	}
	return 0
}

// ---------------------------------------------------------------- scenarios
type svScen func(r *rand.Rand)

func svSeedStore(s *svSrv, m svModel, r *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		switch r.Intn(4) {
		case 0:
			t, p := svPick(r, svTopics), svPick(r, svParts)
			svLog("create %q/%d", t, p)
			s.km.CreatePartitionTopics([]string{t}, int(p))
			m.create(t, p)
		default:
			s.post(m, r)
		}
	}
}

// one request with a response that can be predicted
type svShot struct {
	req  []byte
	corr int32
	want []byte
	what string
}

func svApiVersions() []byte {
	w := &svWb{}
	w.i16(0)
	keys := [][2]int16{{1, 2}, {2, 1}, {3, 1}, {8, 2}, {9, 1}, {10, 0}, {11, 1}, {12, 0}, {13, 0}, {14, 0}, {18, 0}}
	w.i32(int32(len(keys)))
	for _, k := range keys {
		w.i16(k[0])
		w.i16(k[1])
		w.i16(k[1])
	}
	return w.Bytes()
}

func svPredictable(s *svSrv, m svModel, r *rand.Rand, corr int32, big bool) svShot {
	b, w := &svWb{}, &svWb{}
	var key, ver int16
	what := ""
	switch r.Intn(8) {
	case 0:
		what, key = "heartbeat", 12
		b.str("g")
		b.i32(r.Int31())
		b.str(strings.Repeat("m", r.Intn(50)))
		w.i16(0)
	case 1:
		what, key = "find coordinator", 10
		b.str("k")
		w.i16(0)
		w.i32(100)
		w.str("localhost")
		w.i32(int32(s.port))
	case 2:
		what, key = "api versions", 18
		w.Write(svApiVersions())
	case 3:
		what, key = "leave group", 13
		b.str("g")
		b.str("m")
		w.i16(0)
	case 4, 5:
		what, key, ver = "offset commit", 8, 2
		g := svPick(r, svGroups)
		n := r.Intn(3)
		var ts []string
		var ps [][]svCommit
		w.i32(int32(n))
		for i := 0; i < n; i++ {
			t := svAnyTopic(r)
			ts = append(ts, t)
			w.str(t)
			k := r.Intn(4)
			w.i32(int32(k))
			var cs []svCommit
			for j := 0; j < k; j++ {
				c := svCommit{t, svAnyPart(r), int64(r.Intn(60)) - 5}
				cs = append(cs, c)
				w.i32(c.p)
				w.i16(m.commit(g, c))
			}
			ps = append(ps, cs)
		}
		b.Write(svCommitBody(g, ts, ps))
	case 6:
		what, key, ver = "list offsets", 2, 1
		n := r.Intn(3)
		b.i32(-1)
		b.i32(int32(n))
		w.i32(int32(n))
		for i := 0; i < n; i++ {
			t := svAnyTopic(r)
			b.str(t)
			w.str(t)
			k := r.Intn(4)
			b.i32(int32(k))
			w.i32(int32(k))
			for j := 0; j < k; j++ {
				p := svAnyPart(r)
				b.i32(p)
				b.i64(-2)
				w.i32(p)
				mp := m.part(t, p)
				switch {
				case mp == nil:
					w.i16(3)
					w.i64(0)
				case len(mp.recs) == 0:
					w.i16(0)
					w.i64(0)
				default:
					w.i16(0)
					w.i64(mp.recs[0].ts)
				}
				w.i64(0)
			}
		}
	default:
		what, key, ver = "metadata", 3, 1
		n := r.Intn(3)
		if big && r.Intn(3) == 0 {
			n = 500 + r.Intn(9000)
			if r.Intn(4) == 0 {
				n = 40000
			}
		}
		b.i32(int32(n))
		w.i32(1)
		w.i32(100)
		w.str("localhost")
		w.i32(int32(s.port))
		w.i16(-1)
		w.i32(500)
		w.i32(int32(n))
		for i := 0; i < n; i++ {
			t := fmt.Sprintf("no-such-topic-%d", r.Intn(1000))
			b.str(t)
			w.i16(3)
			w.str(t)
			w.WriteByte(0)
			w.i32(0)
		}
	}
	client := strings.Repeat("c", r.Intn(12))
	return svShot{req: svRequest(key, ver, corr, client, b.Bytes()), corr: corr, want: w.Bytes(), what: what}
}

func svExpectShots(c *svCx, shots []svShot) {
	for i, sh := range shots {
		corr, body, err := c.read()
		if err != nil {
			svReport("a request of the stream was not answered", map[string]any{"number": i, "what": sh.what, "request": fmt.Sprintf("%x", svClip(sh.req)), "error": err.Error()})
		}
		if corr != sh.corr {
			svReport("answers do not match the requests of the stream", map[string]any{"number": i, "what": sh.what, "want correlation id": sh.corr, "got": corr})
		}
		if !bytes.Equal(body, sh.want) {
			svReport("response body differs", map[string]any{"number": i, "what": sh.what, "request": fmt.Sprintf("%x", svClip(sh.req)), "want": fmt.Sprintf("%x", svClip(sh.want)), "got": fmt.Sprintf("%x", svClip(body)), "want length": len(sh.want), "got length": len(body)})
		}
	}
}

func svQuietAfter(c *svCx, d time.Duration) {
	c.c.SetReadDeadline(time.Now().Add(d))
	var b [1]byte
	n, err := c.c.Read(b[:])
	if n > 0 {
		svReport("bytes arrived that answer no request", map[string]any{"first": b[0]})
	}
	var ne net.Error
	if err != nil && !(errors.As(err, &ne) && ne.Timeout()) {
		svReport("the connection ended without a reason", map[string]any{"error": err.Error()})
	}
}

func svScStream(r *rand.Rand) {
	s := svNewSrv(true)
	defer s.stop()
	m := svModel{}
	svSeedStore(s, m, r, 6)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for k := 0; k < 3; k++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		c := svDial(s.port, rr)
		slow := k == 0 && rr.Intn(6) == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer c.close()
			for round := 0; round < 4; round++ {
				var shots []svShot
				var stream []byte
				mu.Lock()
				for i := 1 + rr.Intn(6); i > 0; i-- {
					// commits by several connections only raise svOffsets: the answers stay svPredictable
					sh := svPredictable(s, m, rr, rr.Int31()-rr.Int31(), true)
					shots = append(shots, sh)
					stream = append(stream, sh.req...)
				}
				mu.Unlock()
				done := make(chan struct{})
				go func() { svExpectShots(c, shots); close(done) }()
				mode := rr.Intn(4)
				svLog("stream of %d requests, %d bytes, split mode %d, first %x", len(shots), len(stream), mode, svClip(stream))
				pauses := 0
				for len(stream) > 0 {
					n := len(stream)
					switch mode {
					case 0:
						n = 1 + rr.Intn(6)
					case 1:
						n = 1 + rr.Intn(len(stream))
					case 2:
						n = []int{8192, 8191, 8193, 4, 4096, 12}[rr.Intn(6)]
					}
					if n > len(stream) || len(stream) > 60000 && rr.Intn(20) == 0 {
						n = len(stream)
					}
					if mode == 0 && len(stream) > 3000 {
						n = 1000
					}
					c.c.Write(stream[:n])
					stream = stream[n:]
					if pauses < 25 && len(stream) > 0 {
						pauses++
						time.Sleep(time.Duration(rr.Intn(1500)) * time.Microsecond)
						if slow && rr.Intn(8) == 0 {
							time.Sleep(1100 * time.Millisecond)
							slow = false
						}
					}
				}
				<-done
			}
			svQuietAfter(c, 2*time.Millisecond)
		}()
	}
	wg.Wait()
	// an incomplete request has no effect
	t, p := "incomplete", int32(1)
	s.km.CreatePartitionTopics([]string{t}, int(p))
	c, d := svDial(s.port, r), svDial(s.port, r)
	defer c.close()
	defer d.close()
	req := svRequest(8, 2, 77, "x", svCommitBody("g", []string{t}, [][]svCommit{{{t, p, 41}}}))
	cut := 1 + r.Intn(len(req)-1)
	c.c.Write(req[:cut])
	svLog("incomplete request of %d of %d bytes", cut, len(req))
	svQuietAfter(c, time.Duration(1+r.Intn(20))*time.Millisecond)
	if o := svOffsets(d, "g", map[string][]int32{t: {p}})[t][p]; o != 0 {
		svReport("an incomplete request was processed", map[string]any{"bytes sent": cut, "of": len(req)})
	}
	c.c.Write(req[cut:])
	if _, _, err := c.read(); err != nil {
		svReport("a request sent in two parts was not answered", map[string]any{"cut": cut, "error": err.Error()})
	}
	if o := svOffsets(d, "g", map[string][]int32{t: {p}})[t][p]; o != 41 {
		svReport("a request sent in two parts was not processed", map[string]any{"cut": cut, "offset": o})
	}
}

func svScResponses(r *rand.Rand) {
	s := svNewSrv(true)
	defer s.stop()
	m := svModel{}
	svSeedStore(s, m, r, 10)
	if r.Intn(4) == 0 {
		// a response much larger than a buffer
		for i := 0; i < 30; i++ {
			s.km.ExtendedPost("big", 0, nil, bytes.Repeat([]byte{byte(i)}, 5000), nil, time.UnixMilli(1))
		}
		c := svDial(s.port, r)
		if got := svFetchAll(c, "big", 0); len(got) != 30 {
			svReport("a large response is incomplete", map[string]any{"records": len(got)})
		}
		c.close()
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		c := svDial(s.port, rr)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer c.close()
			for i := 0; i < 8; i++ {
				var shots []svShot
				mu.Lock()
				for j := rr.Intn(4); j >= 0; j-- {
					corr := rr.Int31()
					switch rr.Intn(6) {
					case 0:
						corr = -1
					case 1:
						corr = math.MinInt32
					case 2:
						corr = -corr
					}
					shots = append(shots, svPredictable(s, m, rr, corr, true))
				}
				mu.Unlock()
				var all []byte
				for _, sh := range shots {
					all = append(all, sh.req...)
				}
				svLog("%d requests at once, first %x", len(shots), svClip(all))
				go c.c.Write(all)
				svExpectShots(c, shots)
			}
			svQuietAfter(c, 2*time.Millisecond)
		}()
	}
	wg.Wait()
}

func svScApis(r *rand.Rand) {
	var wg sync.WaitGroup
	for i := 0; i < r.Intn(4); i++ {
		wg.Add(1)
		go func() { defer wg.Done(); svNewSrv(false) }()
	}
	s := svNewSrv(true)
	wg.Wait()
	defer s.stop()
	c := svDial(s.port, r)
	defer c.close()
	for i := 0; i < 3; i++ {
		rr := c.call(18, 0, nil)
		if !bytes.Equal(rr.b, svApiVersions()) {
			svReport("advertised versions differ from the served ones", map[string]any{"want": fmt.Sprintf("%x", svApiVersions()), "got": fmt.Sprintf("%x", rr.b)})
		}
	}
	// each listed version is served
	svServed(c, s, r)
}

func svServed(c *svCx, s *svSrv, r *rand.Rand) {
	for _, q := range svEmpty() {
		rr := c.call(q.key, q.ver, q.body)
		if len(rr.b) < q.min {
			svReport("response of another shape", map[string]any{"api": q.key, "version": q.ver, "bytes": fmt.Sprintf("%x", rr.b)})
		}
	}
}

type svEmptyReq struct {
	key, ver int16
	body     []byte
	min      int
}

// the simplest request of every API
func svEmpty() []svEmptyReq {
	f := func(fs ...func(*svWb)) []byte {
		w := &svWb{}
		for _, g := range fs {
			g(w)
		}
		return w.Bytes()
	}
	i32 := func(v int32) func(*svWb) { return func(w *svWb) { w.i32(v) } }
	str := func(s string) func(*svWb) { return func(w *svWb) { w.str(s) } }
	return []svEmptyReq{
		{1, 2, f(i32(-1), i32(0), i32(0), i32(0)), 8},
		{2, 1, f(i32(-1), i32(0)), 4},
		{3, 1, f(i32(0)), 12},
		{8, 2, svCommitBody("g", nil, nil), 4},
		{9, 1, f(str("g"), i32(0)), 4},
		{10, 0, f(str("g")), 10},
		{11, 1, f(str("g"), i32(1), i32(1), str("m"), str("consumer"), i32(0)), 10},
		{12, 0, f(str("g"), i32(1), str("m")), 2},
		{13, 0, f(str("g"), str("m")), 2},
		{14, 0, f(str("g"), i32(1), str("m"), i32(0)), 6},
		{18, 0, nil, 6},
	}
}

func svScHeaders(r *rand.Rand) {
	s := svNewSrv(true)
	defer s.stop()
	m := svModel{}
	svSeedStore(s, m, r, 8)
	c := svDial(s.port, r)
	defer c.close()
	for i := 0; i < 12; i++ {
		switch r.Intn(3) {
		case 0:
			svServed(c, s, r)
		default:
			sh := svPredictable(s, m, r, r.Int31(), true)
			if r.Intn(3) == 0 {
				// longer client ids
				key, ver := int16(binary.BigEndian.Uint16(sh.req[4:])), int16(binary.BigEndian.Uint16(sh.req[6:]))
				n := int(binary.BigEndian.Uint16(sh.req[12:]))
				body := sh.req[14+n:]
				sh.req = svRequest(key, ver, sh.corr, strings.Repeat("z", r.Intn(32000)), body)
			}
			svLog("%s %x", sh.what, svClip(sh.req))
			go c.c.Write(sh.req)
			svExpectShots(c, []svShot{sh})
		}
	}
}

func svScPost(r *rand.Rand) {
	s := svNewSrv(true)
	m := svModel{}
	if r.Intn(6) == 0 {
		svBulk(s, m, r)
	}
	c := svDial(s.port, r)
	for i := 0; i < 60; i++ {
		switch r.Intn(12) {
		case 0:
			ts := []string{svPick(r, svTopics), svPick(r, svTopics)}
			p := svPick(r, svParts)
			svLog("create %q partition %d", ts, p)
			s.km.CreatePartitionTopics(ts, int(p))
			for _, t := range ts {
				m.create(t, p)
			}
		case 1:
			t, p, k, v := svPick(r, svTopics), svPick(r, svParts), svAnyBytes(r), svAnyBytes(r)
			svLog("simple post %q/%d", t, p)
			t0 := time.Now().UnixMilli()
			s.km.SimplePost(t, int(p), k, v)
			t1 := time.Now().UnixMilli()
			mp := m.create(t, p)
			got := svFetchAll(c, t, p)
			if len(got) != len(mp.recs)+1 {
				svReport("a post did not append one record", map[string]any{"topic": t, "partition": p, "before": len(mp.recs), "after": len(got)})
			}
			ts := got[len(got)-1].ts
			if ts < t0 || ts > t1 {
				svReport("a post is not stamped with the current time", map[string]any{"timestamp": ts, "between": []int64{t0, t1}})
			}
			mp.recs = append(mp.recs, svMrec{ts, k, v})
		case 2:
			t, p, g, o := svAnyTopic(r), svAnyPart(r), svPick(r, svGroups), int64(r.Intn(100))
			svLog("set offset %q/%d %q %d", t, p, g, o)
			s.km.SetConsumerGroupOffset(t, int(p), g, o)
			if mp := m.part(t, p); mp != nil {
				mp.co[g] = o
			}
		case 3:
			if r.Intn(3) == 0 {
				c.close()
				svLog("restart")
				svWithin("restarting the server", s.km.Restart)
				c = svDial(s.port, r)
			}
		case 4:
			s.checkStore(c, m)
			s.checkOffsets(c, m)
		case 5:
			// concurrent posts
			var wg sync.WaitGroup
			t := svPick(r, svTopics)
			n := 2 + r.Intn(6)
			type pr struct {
				p int32
				i int
			}
			before := map[int32]int{}
			for _, p := range svParts[:3] {
				if mp := m.part(t, p); mp != nil {
					before[p] = len(mp.recs)
				}
			}
			svLog("%d concurrent posters on %q", n, t)
			for k := 0; k < n; k++ {
				k := k
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 20; i++ {
						p := svParts[(k+i)%3]
						s.km.ExtendedPost(t, int(p), []byte{byte(k)}, []byte{byte(i)}, nil, time.UnixMilli(int64(1000*k+i)))
					}
				}()
			}
			wg.Wait()
			for _, p := range svParts[:3] {
				mp := m.create(t, p)
				got := svFetchAll(c, t, p)
				want := 0
				for k := 0; k < n; k++ {
					for i := 0; i < 20; i++ {
						if svParts[(k+i)%3] == p {
							want++
						}
					}
				}
				if len(got) != before[p]+want {
					svReport("concurrent posts lost or duplicated records", map[string]any{"topic": t, "partition": p, "want": before[p] + want, "got": len(got)})
				}
				if d := svSameRecs(got[:before[p]], mp.recs); d != "" {
					svReport("a post changed existing records: "+d, map[string]any{"topic": t, "partition": p})
				}
				last := map[byte]int{}
				seen := map[pr]bool{}
				for _, x := range got[before[p]:] {
					if len(x.key) != 1 || len(x.value) != 1 || x.ts != int64(1000*int(x.key[0])+int(x.value[0])) {
						svReport("concurrent posts mixed up records", map[string]any{"topic": t, "partition": p, "ts": x.ts, "key": x.key, "value": x.value})
					}
					k := x.key[0]
					if v, ok := last[k]; ok && v >= int(x.value[0]) {
						svReport("records of one poster are out of order", map[string]any{"topic": t, "partition": p})
					}
					last[k] = int(x.value[0])
					q := pr{int32(k), int(x.value[0])}
					if seen[q] {
						svReport("a record was stored twice", nil)
					}
					seen[q] = true
				}
				mp.recs = got
			}
		default:
			s.post(m, r)
		}
	}
	s.checkStore(c, m)
	s.checkOffsets(c, m)
	// nothing appeared that was not posted or created
	for _, t := range append([]string{"missing"}, svTopics...) {
		parts := svMetaParts(c, t)
		if (parts != nil) != (m[t] != nil) || len(parts) != len(m[t]) {
			svReport("topics or partitions appeared or vanished", map[string]any{"topic": t, "partitions": parts, "want": len(m[t])})
		}
	}
	c.close()
	s.stop()
}

func svMetaParts(c *svCx, t string) []int32 {
	w := &svWb{}
	w.i32(1)
	w.str(t)
	rr := c.call(3, 1, w.Bytes())
	mt := svDecMeta(rr)
	if err := rr.end(); err != nil || len(mt.topics) != 1 {
		svReport("malformed metadata response", map[string]any{"error": fmt.Sprint(err)})
	}
	if mt.topics[0].code != 0 {
		return nil
	}
	out := []int32{}
	for _, p := range mt.topics[0].parts {
		out = append(out, p.idx)
	}
	return out
}

type svMpartW struct {
	code   int16
	idx    int32
	leader int32
}
type svMtopicW struct {
	code     int16
	name     string
	internal bool
	parts    []svMpartW
}
type svMetaW struct {
	brokers []struct {
		id   int32
		host string
		port int32
	}
	topics []svMtopicW
}

func svDecMeta(r *svRb) (m svMetaW) {
	for n := r.count(); n > 0 && r.err == nil; n-- {
		b := struct {
			id   int32
			host string
			port int32
		}{r.i32(), r.str(), r.i32()}
		r.nstr()
		m.brokers = append(m.brokers, b)
	}
	r.i32()
	for n := r.count(); n > 0 && r.err == nil; n-- {
		t := svMtopicW{code: r.i16(), name: r.str(), internal: r.i8() != 0}
		for k := r.count(); k > 0 && r.err == nil; k-- {
			t.parts = append(t.parts, svMpartW{r.i16(), r.i32(), r.i32()})
			for q := 0; q < 2; q++ {
				for j := r.count(); j > 0 && r.err == nil; j-- {
					r.i32()
				}
			}
		}
		m.topics = append(m.topics, t)
	}
	return
}

type svFq struct {
	p   int32
	off int64
	max int32
}

func svRecSize(x svMrec) int { return 34 + len(x.key) + len(x.value) }

func svScFetch(r *rand.Rand) {
	s := svNewSrv(true)
	defer s.stop()
	m := svModel{}
	if r.Intn(6) == 0 {
		svBulk(s, m, r)
	}
	c := svDial(s.port, r)
	defer c.close()
	for i := 0; i < 25; i++ {
		svSeedStore(s, m, r, r.Intn(4))
		names, qs := []string{}, [][]svFq{}
		w := &svWb{}
		w.i32(-1)
		w.i32(int32(r.Intn(3) * 12))
		w.i32(int32(r.Intn(3)))
		n := r.Intn(4)
		w.i32(int32(n))
		for k := 0; k < n; k++ {
			t := svAnyTopic(r)
			names = append(names, t)
			w.str(t)
			var ps []svFq
			np := r.Intn(4)
			w.i32(int32(np))
			for j := 0; j < np; j++ {
				q := svFq{p: svAnyPart(r), max: int32(r.Intn(400))}
				mp := m.part(t, q.p)
				if mp != nil && len(mp.recs) > 0 {
					q.off = int64(r.Intn(len(mp.recs) + 2))
					if r.Intn(3) == 0 {
						// a limit that exactly fits, or misses by one
						sum := 0
						for x := int(q.off); x < len(mp.recs) && (x == int(q.off) || r.Intn(2) == 0); x++ {
							sum += svRecSize(mp.recs[x])
						}
						q.max = int32(sum - r.Intn(2))
					}
				}
				switch r.Intn(8) {
				case 0:
					q.off = -int64(r.Intn(3))
				case 1:
					q.off = math.MaxInt64 - int64(r.Intn(2))
				case 2:
					q.max = math.MaxInt32
				}
				ps = append(ps, q)
				w.i32(q.p)
				w.i64(q.off)
				w.i32(q.max)
			}
			qs = append(qs, ps)
		}
		rr := c.call(1, 2, w.Bytes())
		got := svDecFetch(rr)
		svBad := func(what string, info map[string]any) {
			info["topics"] = names
			info["partitions"] = fmt.Sprint(qs)
			svReport(what, info)
		}
		if err := rr.end(); err != nil {
			svBad("malformed fetch response", map[string]any{"error": err.Error()})
		}
		if len(got) != n {
			svBad("fetch response does not answer each topic", map[string]any{"got": len(got)})
		}
		for k := range got {
			if got[k].name != names[k] || len(got[k].parts) != len(qs[k]) {
				svBad("fetch response does not answer the requested partitions in order", map[string]any{"topic": names[k], "got": got[k].name})
			}
			for j, q := range qs[k] {
				g := got[k].parts[j]
				info := map[string]any{"topic": names[k], "request": fmt.Sprintf("%+v", q), "got": fmt.Sprintf("partition %d code %d high watermark %d, %d records", g.idx, g.code, g.hw, len(g.msgs))}
				if g.idx != q.p {
					svBad("records under another partition number", info)
				}
				if (g.code == 1) != (q.off < 0) || g.code != 0 && g.code != 1 {
					svBad("wrong error code in a fetch response", info)
				}
				mp := m.part(names[k], q.p)
				var recs []svMrec
				if mp != nil {
					recs = mp.recs
				}
				if q.off < 0 || q.off >= int64(len(recs)) {
					if len(g.msgs) != 0 {
						svBad("records returned that do not exist", info)
					}
				}
				sum := 0
				for x, ms := range g.msgs {
					o := q.off + int64(x)
					if ms.offset != o {
						info["offset"] = ms.offset
						svBad("offsets are not consecutive from the requested one", info)
					}
					if o >= int64(len(recs)) || ms.ts != recs[o].ts || !svSame(ms.key, recs[o].key) || !svSame(ms.value, recs[o].value) {
						info["offset"] = ms.offset
						svBad("a returned record is not the stored one", info)
					}
					sum += svRecSize(recs[o])
				}
				if len(g.msgs) > 0 && sum > int(q.max) || int(g.size) > int(q.max) && q.max >= 0 && len(g.msgs) > 0 {
					svBad("more bytes than the partition's limit", info)
				}
				next := q.off + int64(len(g.msgs))
				end := int64(len(recs))
				if next > end {
					end = next
				}
				if g.hw < next || g.hw > end {
					svBad("high watermark outside its bounds", info)
				}
				// everything that fits is returned by a fetch of one partition
				if n == 1 && len(qs[0]) == 1 && q.off >= 0 && next < int64(len(recs)) && sum+svRecSize(recs[next]) <= int(q.max) {
					svBad("a record that fits was left out", info)
				}
			}
		}
	}
}

func svFetchBody(wait int32, t string, ps []svFq) []byte {
	w := &svWb{}
	w.i32(-1)
	w.i32(wait)
	w.i32(1)
	w.i32(1)
	w.str(t)
	w.i32(int32(len(ps)))
	for _, q := range ps {
		w.i32(q.p)
		w.i64(q.off)
		w.i32(q.max)
	}
	return w.Bytes()
}

func svScWait(r *rand.Rand) {
	s := svNewSrv(true)
	c := svDial(s.port, r)
	t := "w"
	nrec := 1 + r.Intn(3)
	for i := 0; i < nrec; i++ {
		s.km.ExtendedPost(t, 0, []byte("k"), []byte("value"), nil, time.UnixMilli(int64(i)))
	}
	s.km.CreatePartitionTopics([]string{t}, 1)
	timed := func(what string, body []byte, lo, hi time.Duration) int {
		svLog("fetch expected between %v and %v: %s", lo, hi, what)
		t0 := time.Now()
		rr := c.call(1, 2, body)
		d := time.Since(t0)
		if d < lo || d > hi {
			svReport("fetch took an unexpected time: "+what, map[string]any{"took": d.String(), "expected": fmt.Sprintf("%v to %v", lo, hi)})
		}
		n := 0
		for _, x := range svDecFetch(rr) {
			for _, p := range x.parts {
				n += len(p.msgs)
			}
		}
		return n
	}
	const soon = 2500 * time.Millisecond
	for i := 0; i < 3; i++ {
		switch r.Intn(8) {
		case 0:
			if timed("data is there", svFetchBody(20000, t, []svFq{{0, 0, 1 << 20}}), 0, soon) == 0 {
				svReport("a fetch with data returned none", nil)
			}
		case 1:
			timed("data in one of two partitions", svFetchBody(20000, t, []svFq{{1, 0, 1 << 20}, {0, 0, 1 << 20}}), 0, soon)
		case 2:
			timed("limit reached", svFetchBody(20000, t, []svFq{{0, 0, int32(39 + r.Intn(3))}}), 0, soon)
		case 3:
			timed("a record larger than the limit", svFetchBody(20000, t, []svFq{{0, 0, int32(r.Intn(39))}}), 0, soon)
		case 4:
			ms := int32(60 + r.Intn(200))
			var u0, u1 syscall.Rusage
			syscall.Getrusage(syscall.RUSAGE_SELF, &u0)
			q := []svFq{{1, 0, 100}}
			switch r.Intn(3) {
			case 0:
				q = []svFq{{9, 0, 100}, {0, int64(nrec), 100}}
			case 1:
				q = []svFq{{0, -1, 100}, {0, int64(nrec + 5), 100}}
			}
			timed("no data", svFetchBody(ms, t, q), time.Duration(ms)*time.Millisecond, time.Duration(ms)*time.Millisecond+soon)
			syscall.Getrusage(syscall.RUSAGE_SELF, &u1)
			cpu := time.Duration(u1.Utime.Nano() + u1.Stime.Nano() - u0.Utime.Nano() - u0.Stime.Nano())
			if cpu > time.Duration(ms)*time.Millisecond*7/10 {
				svReport("a fetch that waits does not sleep", map[string]any{"cpu": cpu.String(), "wait ms": ms})
			}
		case 5:
			tt := "late"
			s.km.CreatePartitionTopics([]string{tt}, 3+i)
			go func() {
				time.Sleep(60 * time.Millisecond)
				s.km.ExtendedPost(tt, 3+i, nil, []byte("v"), nil, time.UnixMilli(5))
			}()
			if timed("data arrives while waiting", svFetchBody(20000, tt, []svFq{{int32(3 + i), 0, 1000}}), 0, soon) != 1 {
				svReport("data that arrived while a fetch waited was not returned", nil)
			}
		case 6:
			timed("no wait requested", svFetchBody(int32(-r.Intn(2)), t, []svFq{{1, 0, 100}}), 0, soon)
		case 7:
			timed("nothing requested", svFetchBody(30, t, nil), 0, soon)
		}
	}
	// a stop request ends the wait
	if r.Intn(2) == 0 {
		svLog("stop while a fetch waits")
		body := svFetchBody(20000, t, []svFq{{1, 0, 100}})
		c.c.Write(svRequest(1, 2, 5, "x", body))
		time.Sleep(50 * time.Millisecond)
		t0 := time.Now()
		if r.Intn(2) == 0 {
			s.km.FinishRequests()
		} else {
			go s.km.RequestStop()
		}
		_, _, err := c.read()
		if d := time.Since(t0); d > soon+2*time.Second || err != nil {
			svReport("a waiting fetch does not end with a stop request", map[string]any{"took": d.String(), "error": fmt.Sprint(err)})
		}
	}
	c.close()
	s.stop()
}

func svScMessages(r *rand.Rand) {
	s := svNewSrv(true)
	defer s.stop()
	m := svModel{}
	svSeedStore(s, m, r, 30)
	c := svDial(s.port, r)
	defer c.close()
	for t, ps := range m {
		for p, mp := range ps {
			off := r.Intn(len(mp.recs) + 1)
			max := int32(math.MaxInt32)
			if r.Intn(3) == 0 {
				max = int32(r.Intn(300))
			}
			rr := c.call(1, 2, svFetchBody(0, t, []svFq{{p, int64(off), max}}))
			w := &svWb{}
			got := svDecFetch(rr)
			if err := rr.end(); err != nil || len(got) != 1 || len(got[0].parts) != 1 {
				svReport("malformed message set", map[string]any{"topic": t, "partition": p, "error": fmt.Sprint(err), "response": fmt.Sprintf("%x", svClip(rr.b))})
			}
			g := got[0].parts[0]
			total := 0
			for i, x := range g.msgs {
				if off+i >= len(mp.recs) {
					break
				}
				q := mp.recs[off+i]
				w.Reset()
				w.i8(1)
				w.i8(0)
				w.i64(q.ts)
				w.blob(q.key)
				w.blob(q.value)
				tail := append([]byte{}, w.Bytes()...)
				w.Reset()
				w.i64(int64(off + i))
				w.i32(int32(4 + len(tail)))
				w.i32(int32(crc32.ChecksumIEEE(tail)))
				w.Write(tail)
				if !bytes.Equal(w.Bytes(), x.raw) {
					svReport("a message differs from the v1 format", map[string]any{"topic": t, "partition": p, "offset": off + i, "want": fmt.Sprintf("%x", svClip(w.Bytes())), "got": fmt.Sprintf("%x", svClip(x.raw))})
				}
				total += w.Len()
			}
			if int(g.size) != total {
				svReport("message set size differs from its messages", map[string]any{"size": g.size, "messages": total})
			}
		}
	}
}

func svScListOffsets(r *rand.Rand) {
	s := svNewSrv(true)
	defer s.stop()
	m := svModel{}
	if r.Intn(6) == 0 {
		svBulk(s, m, r)
	}
	c := svDial(s.port, r)
	defer c.close()
	for i := 0; i < 25; i++ {
		svSeedStore(s, m, r, r.Intn(5))
		w := &svWb{}
		w.i32(-1)
		n := r.Intn(4)
		w.i32(int32(n))
		type q struct {
			p  int32
			ts int64
		}
		var names []string
		var qs [][]q
		for k := 0; k < n; k++ {
			t := svAnyTopic(r)
			names = append(names, t)
			w.str(t)
			np := r.Intn(4)
			w.i32(int32(np))
			var x []q
			for j := 0; j < np; j++ {
				p := svAnyPart(r)
				ts := []int64{-1, -2, int64(r.Intn(60)), 1700000000000 + int64(r.Intn(6000)), -3, -int64(r.Intn(100000)), math.MaxInt64, 0}[r.Intn(8)]
				if mp := m.part(t, p); mp != nil && len(mp.recs) > 0 && r.Intn(2) == 0 {
					ts = mp.recs[r.Intn(len(mp.recs))].ts + int64(r.Intn(3)) - 1
				}
				x = append(x, q{p, ts})
				w.i32(p)
				w.i64(ts)
			}
			qs = append(qs, x)
		}
		rr := c.call(2, 1, w.Bytes())
		if rr.count() != n {
			svReport("list offsets does not answer each topic", nil)
		}
		for k := 0; k < n; k++ {
			if t := rr.str(); t != names[k] {
				svReport("list offsets answers another topic", map[string]any{"want": names[k], "got": t})
			}
			if rr.count() != len(qs[k]) {
				svReport("list offsets does not answer each partition", nil)
			}
			for _, x := range qs[k] {
				p, code, ts, off := rr.i32(), rr.i16(), rr.i64(), rr.i64()
				info := map[string]any{"topic": names[k], "partition": x.p, "timestamp": x.ts, "got": fmt.Sprintf("partition %d code %d timestamp %d offset %d", p, code, ts, off)}
				mp := m.part(names[k], x.p)
				if p != x.p {
					svReport("list offsets answers another partition", info)
				}
				if mp == nil {
					if code != 3 {
						svReport("an unknown partition is not reported as such", info)
					}
					continue
				}
				info["records"] = fmt.Sprint(mp.recs)
				if code != 0 {
					svReport("list offsets reports an error for an existing partition", info)
				}
				switch x.ts {
				case -1:
					if off != int64(len(mp.recs)) {
						svReport("the latest offset is not the log length", info)
					}
				case -2:
					want := int64(0)
					if len(mp.recs) > 0 {
						want = mp.recs[0].ts
					}
					if off != 0 || ts != want {
						svReport("the earliest offset is not 0 with the first timestamp", info)
					}
				default:
					want := int64(0)
					for y, rec := range mp.recs {
						if rec.ts < x.ts {
							want = int64(y + 1)
						}
					}
					if off != want {
						info["want"] = want
						svReport("the offset by time is wrong", info)
					}
				}
			}
		}
		if err := rr.end(); err != nil {
			svReport("malformed list offsets response", map[string]any{"error": err.Error()})
		}
	}
	s.checkStore(c, m)
}

func svScCommit(r *rand.Rand) {
	s := svNewSrv(true)
	defer s.stop()
	m := svModel{}
	if r.Intn(6) == 0 {
		svBulk(s, m, r)
	}
	c := svDial(s.port, r)
	defer c.close()
	for i := 0; i < 40; i++ {
		switch r.Intn(7) {
		case 0:
			svSeedStore(s, m, r, 3)
		case 1:
			t, p, g, o := svAnyTopic(r), svAnyPart(r), svPick(r, svGroups), int64(r.Intn(100))-20
			if r.Intn(8) == 0 {
				o = r.Int63()
			}
			svLog("set offset %q/%d %q %d", t, p, g, o)
			s.km.SetConsumerGroupOffset(t, int(p), g, o)
			if mp := m.part(t, p); mp != nil {
				mp.co[g] = o
			}
		case 2:
			s.checkOffsets(c, m)
		case 3:
			// concurrent commits: the largest wins
			if r.Intn(3) > 0 {
				continue
			}
			t, p, g := svPick(r, svTopics), svPick(r, svParts), svPick(r, svGroups)
			mp := m.create(t, p)
			s.km.CreatePartitionTopics([]string{t}, int(p))
			var wg sync.WaitGroup
			max := mp.co[g]
			for k := 0; k < 3; k++ {
				rr := rand.New(rand.NewSource(r.Int63()))
				cc := svDial(s.port, rr)
				var os []int64
				for j := 0; j < 30; j++ {
					o := rr.Int63n(1000)
					os = append(os, o)
					if o > max {
						max = o
					}
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer cc.close()
					for _, o := range os {
						cc.call(8, 2, svCommitBody(g, []string{t}, [][]svCommit{{{t, p, o}}}))
					}
				}()
			}
			wg.Wait()
			mp.co[g] = max
			s.checkOffsets(c, m)
		default:
			g := svPick(r, svGroups)
			var ts []string
			var ps [][]svCommit
			w := &svWb{}
			n := r.Intn(4)
			w.i32(int32(n))
			for k := 0; k < n; k++ {
				t := svAnyTopic(r)
				ts = append(ts, t)
				w.str(t)
				np := r.Intn(4)
				w.i32(int32(np))
				var cs []svCommit
				for j := 0; j < np; j++ {
					x := svCommit{t, svAnyPart(r), int64(r.Intn(120)) - 20}
					if r.Intn(12) == 0 {
						x.o = []int64{math.MaxInt64, math.MinInt64, 1 << 40}[r.Intn(3)]
					}
					cs = append(cs, x)
					w.i32(x.p)
					w.i16(m.commit(g, x))
				}
				ps = append(ps, cs)
			}
			rr := c.call(8, 2, svCommitBody(g, ts, ps))
			if !bytes.Equal(rr.b, w.Bytes()) {
				svReport("the answer to a commit differs", map[string]any{"topics": ts, "commits": fmt.Sprint(ps), "want": fmt.Sprintf("%x", w.Bytes()), "got": fmt.Sprintf("%x", rr.b)})
			}
		}
	}
	s.checkOffsets(c, m)
	s.checkStore(c, m)
}

func svScOffsetFetch(r *rand.Rand) {
	s := svNewSrv(true)
	defer s.stop()
	m := svModel{}
	if r.Intn(6) == 0 {
		svBulk(s, m, r)
	}
	svSeedStore(s, m, r, 8)
	c := svDial(s.port, r)
	defer c.close()
	for i := 0; i < 40; i++ {
		switch r.Intn(5) {
		case 0:
			svSeedStore(s, m, r, 1)
		case 1:
			t, p, g, o := svAnyTopic(r), svAnyPart(r), svPick(r, svGroups), int64(r.Intn(100))-20
			svLog("set offset %q/%d %q %d", t, p, g, o)
			s.km.SetConsumerGroupOffset(t, int(p), g, o)
			if mp := m.part(t, p); mp != nil {
				mp.co[g] = o
			}
		case 2:
			g := svPick(r, svGroups)
			x := svCommit{svAnyTopic(r), svAnyPart(r), int64(r.Intn(50))}
			m.commit(g, x)
			c.call(8, 2, svCommitBody(g, []string{x.t}, [][]svCommit{{x}}))
		default:
			g := svPick(r, append(svGroups, "unknown group"))
			var names []string
			var parts [][]int32
			want := map[string]int{}
			total := 0
			for k := r.Intn(4); k > 0; k-- {
				t := svAnyTopic(r)
				var ps []int32
				for j := r.Intn(4); j > 0; j-- {
					p := svAnyPart(r)
					ps = append(ps, p)
					if mp := m.part(t, p); mp != nil {
						want[fmt.Sprintf("%q/%d=%d", t, p, mp.co[g])]++
						total++
					}
				}
				names = append(names, t)
				parts = append(parts, ps)
			}
			rr := svOffsetsRaw(c, g, names, parts)
			info := map[string]any{"group": g, "topics": names, "partitions": fmt.Sprint(parts), "response": fmt.Sprintf("%x", svClip(rr.b))}
			got := map[string]int{}
			for n := rr.count(); n > 0 && rr.err == nil; n-- {
				t := rr.str()
				for k := rr.count(); k > 0 && rr.err == nil; k-- {
					p, o := rr.i32(), rr.i64()
					md, code := rr.nstr(), rr.i16()
					if rr.err == nil && (md != nil || code != 0) {
						svReport("metadata or an error with a committed offset", info)
					}
					got[fmt.Sprintf("%q/%d=%d", t, p, o)]++
				}
			}
			if err := rr.end(); err != nil {
				info["error"] = err.Error()
				svReport("malformed offset fetch response", info)
			}
			for k := range want {
				if got[k] == 0 {
					info["missing"] = k
					svReport("an existing requested partition is not reported with its offset", info)
				}
			}
			for k := range got {
				if want[k] == 0 {
					info["extra"] = k
					svReport("something was reported that was not requested", info)
				}
			}
		}
	}
	s.checkOffsets(c, m)
}

func svScSync(r *rand.Rand) {
	s := svNewSrv(true)
	defer s.stop()
	m := svModel{}
	if r.Intn(6) == 0 {
		svBulk(s, m, r)
	}
	c := svDial(s.port, r)
	defer c.close()
	for i := 0; i < 10; i++ {
		if i > 0 {
			svSeedStore(s, m, r, r.Intn(4))
		}
		w := &svWb{}
		w.str("g")
		w.i32(1)
		w.str("m")
		w.i32(int32(-r.Intn(2)))
		rr := c.call(14, 0, w.Bytes())
		info := map[string]any{"response": fmt.Sprintf("%x", svClip(rr.b))}
		if rr.i16() != 0 {
			svReport("sync group answers with an error", info)
		}
		a := &svRb{b: rr.blob()}
		if err := rr.end(); err != nil {
			info["error"] = err.Error()
			svReport("malformed sync group response", info)
		}
		if v := a.i16(); v != 1 && v != 0 {
			svReport("assignment version", info)
		}
		seen := map[string]map[int32]bool{}
		for n := a.count(); n > 0 && a.err == nil; n-- {
			t := a.str()
			if seen[t] != nil {
				svReport("a topic is assigned twice", info)
			}
			seen[t] = map[int32]bool{}
			for k := a.count(); k > 0 && a.err == nil; k-- {
				p := a.i32()
				if seen[t][p] {
					svReport("a partition is assigned twice", info)
				}
				seen[t][p] = true
			}
		}
		a.blob()
		if err := a.end(); err != nil {
			info["error"] = err.Error()
			svReport("malformed member assignment", info)
		}
		for t, ps := range m {
			for p := range ps {
				if !seen[t][p] {
					info["missing"] = fmt.Sprintf("%q/%d", t, p)
					svReport("a partition is not assigned", info)
				}
			}
		}
		for t, ps := range seen {
			if m[t] == nil || len(ps) != len(m[t]) {
				info["topic"] = t
				svReport("something is assigned that does not exist", info)
			}
		}
	}
}

func svScRace(r *rand.Rand) {
	s := svNewSrv(true)
	if r.Intn(8) == 0 {
		s.stop()
		s.km.Start()
	}
	var wg sync.WaitGroup
	var alive sync.Map
	worker := func(name string, f func(rr *rand.Rand)) {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		alive.Store(name, true)
		go func() { defer wg.Done(); defer alive.Delete(name); f(rr) }()
	}
	for k := 0; k < 3; k++ {
		worker(fmt.Sprint("poster ", k), func(rr *rand.Rand) {
			for i := 0; i < 60; i++ {
				t, p := svPick(rr, svTopics), int(svPick(rr, svParts))
				switch rr.Intn(5) {
				case 0:
					s.km.CreatePartitionTopics([]string{t, "x" + strconv.Itoa(rr.Intn(40))}, p)
				case 1:
					s.km.SetConsumerGroupOffset(t, p, svPick(rr, svGroups), int64(rr.Intn(50)))
				case 2:
					s.km.SimplePost(t, p, []byte("k"), []byte("v"))
				default:
					s.km.ExtendedPost(t, p, []byte("k"), []byte("v"), map[string][]byte{"h": []byte("x")}, time.UnixMilli(int64(rr.Intn(100))))
				}
			}
		})
	}
	for k := 0; k < 4; k++ {
		worker(fmt.Sprint("client ", k), func(rr *rand.Rand) {
			for round := 0; round < 2; round++ {
				c := svDial(s.port, rr)
				for i := 0; i < 25; i++ {
					t, p := svPick(rr, svTopics), svAnyPart(rr)
					switch rr.Intn(8) {
					case 0:
						c.call(8, 2, svCommitBody(svPick(rr, svGroups), []string{t}, [][]svCommit{{{t, p, int64(rr.Intn(90))}}}))
					case 1:
						svOffsetsRaw(c, svPick(rr, svGroups), []string{t, svAnyTopic(rr)}, [][]int32{{p, svAnyPart(rr)}, {p}})
					case 2:
						w := &svWb{}
						w.str("g")
						w.i32(1)
						w.str("m")
						w.i32(0)
						c.call(14, 0, w.Bytes())
					case 3:
						w := &svWb{}
						w.i32(2)
						w.str(t)
						w.str(svAnyTopic(rr))
						c.call(3, 1, w.Bytes())
					case 4:
						w := &svWb{}
						w.i32(-1)
						w.i32(1)
						w.str(t)
						w.i32(3)
						for j := 0; j < 3; j++ {
							w.i32(svPick(rr, svParts))
							w.i64([]int64{-1, -2, 50}[j])
						}
						c.call(2, 1, w.Bytes())
					case 5:
						c.call(18, 0, nil)
					default:
						c.call(1, 2, svFetchBody(int32(rr.Intn(30)), t, []svFq{{p, int64(rr.Intn(5)), 300}, {svPick(rr, svParts), 0, 200}}))
					}
				}
				c.close()
			}
		})
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * svPatience):
		var left []string
		alive.Range(func(k, v any) bool { left = append(left, k.(string)); return true })
		svReport("operations do not finish (a lock was leaked or taken twice)", map[string]any{"stuck": left})
	}
	// every lock can still be taken
	svWithin("posting and asking after the run", func() {
		c := svDial(s.port, r)
		for _, t := range svTopics {
			for _, p := range svParts {
				s.km.SimplePost(t, int(p), nil, nil)
				s.km.SetConsumerGroupOffset(t, int(p), "g", 1)
				svFetchAll(c, t, p)
			}
		}
		c.close()
	})
	s.stop()
}

func svScMeta(r *rand.Rand) {
	s := svNewSrv(true)
	defer s.stop()
	m := svModel{}
	if r.Intn(6) == 0 {
		svBulk(s, m, r)
	}
	c := svDial(s.port, r)
	defer c.close()
	for i := 0; i < 15; i++ {
		svSeedStore(s, m, r, r.Intn(3))
		w := &svWb{}
		n := r.Intn(5)
		w.i32(int32(n))
		var names []string
		for k := 0; k < n; k++ {
			t := svAnyTopic(r)
			names = append(names, t)
			w.str(t)
		}
		rr := c.call(3, 1, w.Bytes())
		mt := svDecMeta(rr)
		info := map[string]any{"topics": names, "response": fmt.Sprintf("%x", svClip(rr.b))}
		if err := rr.end(); err != nil {
			info["error"] = err.Error()
			svReport("malformed metadata response", info)
		}
		if len(mt.brokers) != 1 || mt.brokers[0].host != "localhost" || int(mt.brokers[0].port) != s.port {
			svReport("the broker is not this server", info)
		}
		if len(mt.topics) != n {
			svReport("metadata does not answer each topic", info)
		}
		for k, t := range mt.topics {
			if t.name != names[k] {
				svReport("metadata answers another topic", info)
			}
			ps := m[names[k]]
			if ps == nil {
				if t.code != 3 || len(t.parts) != 0 {
					svReport("an unknown topic is not reported as such", info)
				}
				continue
			}
			seen := map[int32]bool{}
			for _, p := range t.parts {
				if seen[p.idx] || ps[p.idx] == nil || p.leader != mt.brokers[0].id || p.code != 0 {
					svReport("metadata lists a wrong partition", info)
				}
				seen[p.idx] = true
			}
			if t.code != 0 || len(seen) != len(ps) {
				svReport("metadata does not list exactly the partitions", info)
			}
		}
		rr = c.call(10, 0, func() []byte { w := &svWb{}; w.str("g" + strconv.Itoa(i)); return w.Bytes() }())
		code, id, host, port := rr.i16(), rr.i32(), rr.str(), rr.i32()
		if rr.end() != nil || code != 0 || host != "localhost" || int(port) != s.port || len(mt.brokers) == 1 && id != mt.brokers[0].id {
			svReport("the coordinator is not this server", map[string]any{"response": fmt.Sprintf("%d %d %q %d", code, id, host, port)})
		}
		for _, q := range svEmpty() {
			if q.key == 11 || q.key == 12 || q.key == 13 {
				if x := c.call(q.key, q.ver, q.body); x.i16() != 0 || x.err != nil {
					svReport("a group request is answered with an error", map[string]any{"api": q.key})
				}
			}
		}
	}
}

func svPanics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func svScLife(r *rand.Rand) {
	s := svNewSrv(false)
	m := svModel{}
	if r.Intn(3) == 0 {
		s.stop()
		s.stop()
		s = svNewSrv(false)
	}
	svSeedStore(s, m, r, 5)
	if r.Intn(3) == 0 {
		svBulk(s, m, r)
	}
	s.km.Start()
	for round := 0; round < 2; round++ {
		var cs []*svCx
		for i := 0; i < 12; i++ {
			switch r.Intn(7) {
			case 0:
				svLog("start while running")
				ok := false
				svWithin("starting twice", func() { ok = svPanics(s.km.Start) })
				if !ok {
					svReport("a running server was started again", nil)
				}
			case 1, 2:
				c := svDial(s.port, r)
				svLog("connect")
				c.call(18, 0, nil)
				cs = append(cs, c)
			case 3:
				if len(cs) > 0 {
					k := r.Intn(len(cs))
					svLog("disconnect %d of %d", k, len(cs))
					cs[k].close()
					cs = append(cs[:k], cs[k+1:]...)
				}
			case 4:
				svSeedStore(s, m, r, 2)
			case 5:
				for _, c := range cs {
					c.call(18, 0, nil)
				}
			case 6:
				svRegistry(s, cs)
			}
		}
		svRegistry(s, cs)
		for _, c := range cs {
			c.close()
		}
		switch r.Intn(3) {
		case 0:
			svLog("restart")
			svWithin("restarting", s.km.Restart)
		case 1:
			svLog("stop, stop, start")
			s.stop()
			s.stop()
			s.km.Start()
		default:
			svLog("stop, start")
			s.stop()
			if svPanics(s.km.Start) {
				svReport("a stopped server cannot be started", nil)
			}
		}
		c := svDial(s.port, r)
		s.checkStore(c, m)
		s.checkOffsets(c, m)
		c.close()
	}
	s.stop()
	s.stop()
}

// the registry holds exactly the open connections
func svRegistry(s *svSrv, cs []*svCx) {
	want := map[string]bool{}
	for _, c := range cs {
		want[strconv.Itoa(c.c.LocalAddr().(*net.TCPAddr).Port)] = true
	}
	var got map[string]bool
	for t := time.Now(); time.Since(t) < svPatience; time.Sleep(3 * time.Millisecond) {
		got = map[string]bool{}
		s.km.mu.Lock()
		n := len(s.km.clients)
		for _, kc := range s.km.clients {
			a := kc.conn.RemoteAddr().String()
			got[a[strings.LastIndex(a, ":")+1:]] = true
		}
		s.km.mu.Unlock()
		if n == len(want) && len(got) == len(want) {
			ok := true
			for k := range want {
				ok = ok && got[k]
			}
			if ok {
				return
			}
		}
		missing := false
		for k := range want {
			missing = missing || !got[k]
		}
		if missing && time.Since(t) > 5*time.Second {
			break
		}
	}
	svReport("the registry does not hold exactly the open connections", map[string]any{"open": fmt.Sprint(want), "registered": fmt.Sprint(got)})
}

// ---------------------------------------------------------------- svRejected requests
type svBad struct {
	what string
	req  []byte
}

func svRejected(r *rand.Rand, prop string) svBad {
	e := svPick(r, svEmpty())
	full := svRequest(e.key, e.ver, r.Int31(), strings.Repeat("c", r.Intn(9)), e.body)
	frame := func(b []byte) []byte {
		w := &svWb{}
		w.i32(int32(len(b)))
		w.Write(b)
		return w.Bytes()
	}
	if prop == "C18" {
		w := &svWb{}
		w.str("g")
		w.i32(1)
		w.str("m")
		n := 1 + r.Intn(3)
		w.i32(int32(n))
		for i := 0; i < n; i++ {
			w.str("m")
			w.blob(svAnyBytes(r))
		}
		return svBad{"sync group with assignments", svRequest(14, 0, 3, "x", w.Bytes())}
	}
	switch r.Intn(6) {
	case 0:
		v := e.ver + []int16{1, -1, 2, 5, -e.ver - 1, 100, 256, 10}[r.Intn(8)]
		if v == e.ver {
			v++
		}
		return svBad{fmt.Sprintf("api %d version %d", e.key, v), svRequest(e.key, v, 9, "c", e.body)}
	case 1:
		keys := []int16{0, 4, 5, 6, 7, 15, 16, 17, 19, 20, 68, 69, -1, 100, 180, 1000, 32767, -32768}
		k := svPick(r, keys)
		return svBad{fmt.Sprintf("api %d version %d", k, e.ver), svRequest(k, e.ver, 9, "c", e.body)}
	case 2:
		// header cut off: shorter than the fixed part and client id
		n := r.Intn(8)
		return svBad{"truncated header", frame(full[4 : 4+n])}
	case 3:
		b := append(append([]byte{}, full[4:12]...), 0, 9, 'x')
		return svBad{"truncated client id", frame(b)}
	case 4:
		n := 1 + r.Intn(20)
		if r.Intn(5) == 0 {
			n = 5000
		}
		return svBad{fmt.Sprintf("%d bytes after the body of api %d", n, e.key), frame(append(append([]byte{}, full[4:]...), bytes.Repeat([]byte{byte(r.Intn(3))}, n)...))}
	default:
		if len(e.body) == 0 {
			return svRejected(r, prop)
		}
		n := 1 + r.Intn(len(e.body))
		return svBad{fmt.Sprintf("api %d body short of %d bytes", e.key, n), frame(full[4 : len(full)-n])}
	}
}

// the child serves until it is ended
func svServeChild() {
	s := svNewSrv(true)
	c := svDial(s.port, rand.New(rand.NewSource(1)))
	c.close()
	fmt.Printf("PORT %d\n", s.port)
	time.Sleep(60 * time.Second)
}

func svReject(r *rand.Rand, prop string) {
	cmd := exec.Command(os.Args[0], "-test.run", "^TestVerifServer$")
	cmd.Env = append(os.Environ(), "VERIF_CHILD=serve")
	var out svBuf
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	defer func() { cmd.Process.Kill() }()
	port := 0
	for t := time.Now(); port == 0 && time.Since(t) < svPatience; time.Sleep(2 * time.Millisecond) {
		if i := strings.Index(out.String(), "PORT "); i >= 0 && strings.Contains(out.String()[i:], "\n") {
			fmt.Sscanf(out.String()[i:], "PORT %d", &port)
		}
		select {
		case <-done:
			return
		default:
		}
	}
	if port == 0 {
		return
	}
	b := svRejected(r, prop)
	svLog("expected to be rejected: %s: %x", b.what, svClip(b.req))
	conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		return
	}
	defer conn.Close()
	if r.Intn(2) == 0 {
		// after an accepted one
		ok := svRequest(18, 0, 4, "x", nil)
		conn.Write(ok)
		c := &svCx{c: conn}
		if _, _, err := c.read(); err != nil {
			svReport("no response to a valid request", map[string]any{"error": err.Error(), "output": out.tail()})
		}
	}
	conn.Write(b.req)
	conn.SetReadDeadline(time.Now().Add(svPatience))
	buf := make([]byte, 4096)
	n, err := conn.Read(buf)
	info := map[string]any{"request": b.what, "bytes": fmt.Sprintf("%x", svClip(b.req)), "response": fmt.Sprintf("%x", svClip(buf[:n]))}
	if n > 0 {
		svReport("a request that must be rejected was answered", info)
	}
	var ne net.Error
	if errors.As(err, &ne) && ne.Timeout() {
		svReport("a request that must be rejected was ignored", info)
	}
	select {
	case err := <-done:
		if err == nil {
			return
		}
	case <-time.After(svPatience):
	}
}

type svBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *svBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}
func (s *svBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}
func (s *svBuf) tail() string {
	t := s.String()
	if len(t) > 6000 {
		t = t[len(t)-6000:]
	}
	return t
}

var svScenarios = map[string][]svScen{
	"C07": {svScStream}, "C08": {svScResponses}, "C09": {svScHeaders}, "C10": {svScApis}, "C11": {svScPost}, "C12": {svScFetch}, "C13": {svScWait},
	"C14": {svScMessages}, "C15": {svScListOffsets}, "C16": {svScCommit}, "C17": {svScOffsetFetch}, "C18": {svScSync}, "C19": {svScRace},
	"C20": {svScMeta}, "C21": {svScLife},
}

func TestVerifServer(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	seed := int64(svEnv("VERIF_SEED", 1))
	budget := time.Duration(svEnv("VERIF_BUDGET_MS", 5000)) * time.Millisecond
	switch os.Getenv("VERIF_CHILD") {
	case "serve":
		svServeChild()
		return
	case "run":
		t0 := time.Now()
		for i := int64(0); time.Since(t0) < budget; i++ {
			r := rand.New(rand.NewSource(seed*1000003 + i))
			for _, f := range svScenarios[prop] {
				f(r)
			}
		}
		fmt.Printf("COUNT %d\n", svCount)
		return
	}
	t0 := time.Now()
	total := int64(0)
	rejects := prop == "C09" || prop == "C18" || prop == "C08"
	par := 3
	if prop == "C13" {
		par = 6
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for k := 0; k < par; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := int64(0); n == 0 || time.Since(t0) < budget*8/10; n++ {
				left := budget - time.Since(t0)
				if left > 8*time.Second {
					left = 8 * time.Second
				}
				if left < time.Second {
					left = time.Second
				}
				cmd := exec.Command(os.Args[0], "-test.run", "^TestVerifServer$")
				cmd.Env = append(os.Environ(), "VERIF_CHILD=run", fmt.Sprintf("VERIF_SEED=%d", seed*100+int64(k)*17+n*1009), fmt.Sprintf("VERIF_BUDGET_MS=%d", left.Milliseconds()))
				var out svBuf
				cmd.Stdout, cmd.Stderr = &out, &out
				err := cmd.Run()
				s := out.String()
				if i := strings.LastIndex(s, "COUNT "); i >= 0 {
					var c int64
					fmt.Sscanf(s[i:], "COUNT %d", &c)
					mu.Lock()
					total += c
					mu.Unlock()
				}
				if err == nil {
					continue
				}
				if strings.Contains(s, "FAILING-INPUT") {
					fmt.Println(out.tail())
					os.Exit(3)
				}
				if strings.Contains(s, "panic: verif:") || strings.Contains(s, "error opening kafka mock server") || strings.Contains(s, "too many open files") {
					continue
				}
				if strings.Contains(s, "WARNING: DATA RACE") {
					i := strings.Index(s, "WARNING: DATA RACE")
					e := i + 4000
					if e > len(s) {
						e = len(s)
					}
					svReport("data race", map[string]any{"race": s[i:e]})
				}
				if i := strings.Index(s, "panic: "); i >= 0 || strings.Contains(s, "fatal error: ") {
					if i < 0 {
						i = strings.Index(s, "fatal error: ")
					}
					e := i + 3000
					if e > len(s) {
						e = len(s)
					}
					ops := []string{}
					for _, l := range strings.Split(s[:i], "\n") {
						if strings.HasPrefix(l, "OP ") {
							ops = append(ops, l)
						}
					}
					if len(ops) > 30 {
						ops = ops[len(ops)-30:]
					}
					svReport("the server ended on valid use", map[string]any{"panic": s[i:e], "operations": ops})
				}
				fmt.Println(out.tail())
			}
		}()
	}
	if rejects {
		for k := 0; k < 3; k++ {
			rr := rand.New(rand.NewSource(seed*31 + int64(k)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < 3 || time.Since(t0) < budget; n++ {
					svReject(rr, prop)
				}
			}()
		}
	}
	wg.Wait()
	_ = sort.Ints
	fmt.Printf("EXPLORED %d\n", total+svCount)
}
