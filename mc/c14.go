package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"sync/atomic"
	"syscall"

	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register("C14", "fault_enumeration", runC14)
}

func pairsStr(p []kvw) string {
	s := ""
	for _, x := range p {
		s += q(x.k) + ":" + q(x.v) + " "
	}
	return s
}

func eqPairs(a, b []kvw) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// collect iterates the stream. stop>=0: the consumer stops after so many pairs
func collect(it trie.KVStreamIterator, stop int) ([]kvw, error) {
	ret := []kvw{}
	if stop == 0 {
		stop = math.MaxInt
	}
	err := it.Iterate(func(k, v []byte) bool {
		if len(ret) >= stop {
			failf("iteration continues after the consumer has stopped it")
		}
		ret = append(ret, kvw{string(k), string(v)})
		// the consumer owns the data
		for i := range k {
			k[i] ^= 0xA5
		}
		for i := range v {
			v[i] ^= 0xA5
		}
		return len(ret) < stop
	})
	return ret, err
}

func streamSize(p []kvw) int {
	n := 0
	for _, x := range p {
		n += len(x.k) + len(x.v) + 6
	}
	return n
}

// whole returns the pairs which are completely inside of the first n bytes of the stream and true if n is a boundary of a pair
func whole(p []kvw, n int) ([]kvw, bool) {
	for i, x := range p {
		l := len(x.k) + len(x.v) + 6
		if n < l {
			return p[:i], n == 0
		}
		n -= l
	}
	return p, true
}

func positions(n, dense int) []int {
	var r []int
	for i := 0; i <= n; i++ {
		if i < dense || i > n-dense || i%(n/97+1) == 0 {
			r = append(r, i)
		}
	}
	return r
}

// orderedKV is an iterator over the pairs in the given order
type orderedKV []kvw

func (o orderedKV) Iterate(f func(k, v []byte) bool) {
	for _, x := range o {
		k, v := []byte(x.k), []byte(x.v)
		cont := f(k, v)
		for i := range k {
			k[i] ^= 0xA5
		}
		for i := range v {
			v[i] ^= 0xA5
		}
		if !cont {
			return
		}
	}
}

// recorder is a key/value writer
type recorder struct{ p []kvw }

func (r *recorder) Set(k, v []byte) { r.p = append(r.p, kvw{string(k), string(v)}) }

// judgeStream checks one sequence of pairs over all faults. Returns the number of executions
func judgeStream(p []kvw) int64 {
	n := int64(0)
	w := &failWriter{failAt: -1}
	sw := trie.NewBinaryStreamWriter(w)
	count, size := 0, 0
	for i, x := range p {
		k, v := []byte(x.k), []byte(x.v)
		if err := sw.Write(k, v); err != nil {
			failf("pair #%d is not written: %v", i, err)
		}
		if string(k) != x.k || string(v) != x.v {
			failf("writer changed the data of the caller")
		}
		count++
		size += len(x.k) + len(x.v) + 6
		if c, s := sw.Stats(); c != count || s != size {
			failf("after %d pairs of %d bytes the statistics is %d pairs, %d bytes", count, size, c, s)
		}
	}
	if len(w.data) != size {
		failf("%d bytes reported, %d written", size, len(w.data))
	}
	data := w.data
	ok := func(what string, r io.Reader) {
		n++
		got, err := collect(trie.NewBinaryStreamIterator(r), 0)
		if err != nil || !eqPairs(got, p) {
			failf("%s: read %s (%v), written %s", what, pairsStr(got), err, pairsStr(p))
		}
	}
	ok("in one piece", bytes.NewReader(data))
	ok("byte by byte", &pieceReader{data: data, sizes: []int{1}})
	ok("byte by byte, EOF with the last byte", &pieceReader{data: data, sizes: []int{1}, eofWithData: true})
	ok("in pieces of 3", &pieceReader{data: data, sizes: []int{3}})
	ok("EOF with the data", &pieceReader{data: data, eofWithData: true})
	ok("empty reads", &pieceReader{data: data, sizes: []int{1, 0, 2, 0, 0, 1, 7}})
	for _, i := range positions(len(data), 70) {
		if i > 0 && i < len(data) {
			ok(fmt.Sprintf("two pieces split at %d", i), &pieceReader{data: data, sizes: []int{i, len(data)}})
		}
		for mode := 0; mode < 3; mode++ {
			if i == len(data) && mode != 2 {
				continue
			}
			n++
			var r io.Reader
			switch mode {
			case 0:
				r = bytes.NewReader(data[:i])
			case 1:
				r = &pieceReader{data: data[:i], sizes: []int{1}, eofWithData: true}
			case 2:
				r = &pieceReader{data: data, failAt: i + 1}
			}
			got, err := collect(trie.NewBinaryStreamIterator(r), 0)
			want, boundary := whole(p, i)
			if !eqPairs(got, want) {
				failf("stream cut after %d bytes (mode %d): read %s, expected %s", i, mode, pairsStr(got), pairsStr(want))
			}
			if mode == 2 && err == nil {
				failf("failure of the reader after %d bytes is not reported", i)
			}
			if mode != 2 && (err == nil) != boundary {
				failf("stream cut after %d bytes (mode %d), boundary of a pair: %v, error: %v", i, mode, boundary, err)
			}
		}
	}
	// the consumer stops
	for i := 1; i <= len(p); i++ {
		n++
		r := bytes.NewReader(data)
		it := trie.NewBinaryStreamIterator(r)
		got, err := collect(it, i)
		if err != nil || !eqPairs(got, p[:i]) {
			failf("stopped after %d pairs: read %s (%v)", i, pairsStr(got), err)
		}
	}
	// failure of each write
	for i := 0; i < w.calls; i++ {
		n++
		fw := &failWriter{failAt: i}
		sw := trie.NewBinaryStreamWriter(fw)
		failed := -1
		for j, x := range p {
			if err := sw.Write([]byte(x.k), []byte(x.v)); err != nil {
				failed = j
				break
			}
		}
		if failed < 0 {
			failf("failure of the write #%d is not reported", i)
		}
		if c, _ := sw.Stats(); c != failed {
			failf("write of the pair #%d failed, %d pairs counted", failed, c)
		}
		got, err := collect(trie.NewBinaryStreamIterator(bytes.NewReader(fw.data)), 0)
		if len(got) > failed+1 || !eqPairs(got, p[:len(got)]) {
			failf("after the failed write of the pair #%d read %s (%v), written %s", failed, pairsStr(got), err, pairsStr(p))
		}
	}
	return n
}

func judgeFiles(dir string, p []kvw, faults bool) int64 {
	n := int64(0)
	f := filepath.Join(dir, "stream")
	defer os.Remove(f)
	sw, err := trie.CreateKVStreamFile(f)
	if err != nil {
		failf("create: %v", err)
	}
	for _, x := range p {
		if err := sw.Write([]byte(x.k), []byte(x.v)); err != nil {
			failf("write: %v", err)
		}
	}
	if c, s := sw.Stats(); c != len(p) || s != streamSize(p) {
		failf("wrong statistics of the file writer: %d, %d", c, s)
	}
	if err := sw.Close(); err != nil {
		failf("close: %v", err)
	}
	read := func(f string, stop int) ([]kvw, error) {
		n++
		it, err := trie.OpenKVStreamFile(f)
		if err != nil {
			failf("open: %v", err)
		}
		got, err := collect(it, stop)
		if cerr := it.Close(); cerr != nil {
			failf("close: %v", cerr)
		}
		return got, err
	}
	if got, err := read(f, 0); err != nil || !eqPairs(got, p) {
		failf("read from the file %s (%v), written %s", pairsStr(got), err, pairsStr(p))
	}
	for i := 1; i <= len(p); i++ {
		if got, err := read(f, i); err != nil || !eqPairs(got, p[:i]) {
			failf("file: stopped after %d pairs: read %s (%v)", i, pairsStr(got), err)
		}
	}
	data, _ := os.ReadFile(f)
	// dump of the same pairs is read back; its size is the reported one
	d := filepath.Join(dir, "dump")
	defer os.Remove(d)
	_ = os.WriteFile(d, bytes.Repeat([]byte{7}, len(data)+50), 0644) // dumping replaces the file
	sz, err := trie.DumpToFile(orderedKV(p), d)
	if err != nil {
		failf("dump: %v", err)
	}
	st, _ := os.Stat(d)
	if int64(sz) != st.Size() || sz != trie.ByteSize(orderedKV(p)) || trie.NumEntries(orderedKV(p)) != len(p) {
		failf("dump of %d bytes reported, file of %d bytes, byte size %d, %d entries", sz, st.Size(), trie.ByteSize(orderedKV(p)), trie.NumEntries(orderedKV(p)))
	}
	undump := func(f string) ([]kvw, int, error) {
		n++
		r := &recorder{p: []kvw{}}
		sz, err := trie.UnDumpFromFile(r, f)
		return r.p, sz, err
	}
	if got, usz, err := undump(d); err != nil || usz != sz || !eqPairs(got, p) {
		failf("restored %d bytes from the dump of %d: %s (%v), dumped %s", usz, sz, pairsStr(got), err, pairsStr(p))
	}
	dump, _ := os.ReadFile(d)
	// truncation of both files at each byte
	for _, i := range positions(len(data)-1, 60) {
		if i < 0 {
			continue
		}
		want, boundary := whole(p, i)
		_ = os.WriteFile(f, data[:i], 0644)
		if got, err := read(f, 0); !eqPairs(got, want) || (err == nil) != boundary {
			failf("stream file cut to %d bytes, boundary of a pair: %v: read %s (%v)", i, boundary, pairsStr(got), err)
		}
		_ = os.WriteFile(d, dump[:i], 0644)
		if got, usz, err := undump(d); !eqPairs(got, want) || (err == nil) != boundary || usz != streamSize(want) {
			failf("dump cut to %d bytes, boundary of a pair: %v: restored %d bytes, %s (%v)", i, boundary, usz, pairsStr(got), err)
		}
	}
	if !faults {
		return n
	}
	// every write which exceeds the limit of the file size fails: failure at each byte
	defer setFileLimit(math.MaxUint64)
	for _, i := range positions(len(dump)-1, 60) {
		if i < 0 {
			continue
		}
		n += 2
		setFileLimit(uint64(i))
		_, derr := trie.DumpToFile(orderedKV(p), d)
		var werr error
		sw, cerr := trie.CreateKVStreamFile(f)
		if cerr == nil {
			for _, x := range p {
				if werr = sw.Write([]byte(x.k), []byte(x.v)); werr != nil {
					break
				}
			}
			if err := sw.Close(); werr == nil {
				werr = err
			}
		}
		setFileLimit(math.MaxUint64)
		if derr == nil {
			failf("dump: failure to write after %d bytes is not reported", i)
		}
		if cerr == nil && werr == nil {
			failf("stream file: failure to write after %d bytes is not reported", i)
		}
	}
	return n
}

var fileLimitMax uint64

func setFileLimit(n uint64) {
	if n > fileLimitMax {
		n = fileLimitMax
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: fileLimitMax}); err != nil {
		panic("harness error: setrlimit: " + err.Error())
	}
}

func runC14(c *Ctx) {
	dir, err := os.MkdirTemp(os.Getenv("MC_TMP"), "c14")
	if err != nil {
		panic("harness error: " + err.Error())
	}
	defer os.RemoveAll(dir)
	var rl syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &rl); err != nil {
		panic("harness error: " + err.Error())
	}
	fileLimitMax = rl.Max
	signal.Ignore(syscall.SIGXFSZ)

	// all sequences of up to n pairs over an alphabet of pairs
	ks := []string{"", "a", "ab", "\x00\x00", "a"}
	vs := []string{"", "v", "\x00\x00\x00", "\x05\x00\x00\x00hello"}
	var alpha []kvw
	for _, k := range ks[:4] {
		for _, v := range vs {
			alpha = append(alpha, kvw{k, v})
		}
	}
	depth := c.pick(3, 4)
	s, end := c.Begin("streams", fmt.Sprintf("all sequences of up to %d pairs over %d pairs x (every truncation, reader and writer failure, fragmentation, stop of the consumer)", depth, len(alpha)))
	var seqs [][]kvw
	var rec func(p []kvw)
	rec = func(p []kvw) {
		seqs = append(seqs, append([]kvw{}, p...))
		if len(p) == depth {
			return
		}
		for _, a := range alpha {
			rec(append(p, a))
		}
	}
	rec(nil)
	c.Par(len(seqs), func(i int) {
		c.Case(s, pairsStr(seqs[i]), func() { atomic.AddInt64(&s.Transitions, judgeStream(seqs[i])) })
	})
	end()

	lens := append(append([]int{0}, boundaryLens...), 4095, 4096, 4097, 32767, 32768, 65534, 65535)
	vl := append(append([]int{}, lens...), 65536, 65537, 1<<17+3)
	s, end = c.Begin("stream lengths", "all boundary lengths of keys up to 65535 and of values x neighbours x the same faults")
	var ls [][]kvw
	for _, l := range lens {
		ls = append(ls, []kvw{{pat(l, 1), "v"}, {"k", "w"}}, []kvw{{"k", "w"}, {pat(l, 1), ""}})
	}
	for _, l := range vl {
		ls = append(ls, []kvw{{"k", pat(l, 1)}, {"m", "w"}}, []kvw{{pat(l%300, 2), pat(l, 3)}})
	}
	ls = append(ls, []kvw{{pat(65535, 1), pat(65536, 4)}, {pat(65535, 2), ""}})
	c.Par(len(ls), func(i int) {
		c.Case(s, pairsStr(ls[i]), func() { atomic.AddInt64(&s.Transitions, judgeStream(ls[i])) })
	})
	end()

	c.largeStreams(dir)
	c.randStreams()
	s, end = c.Begin("too long keys", "keys of 65536.. bytes are refused")
	for _, l := range []int{65536, 65537, 70000, 131071, 131072} {
		l := l
		c.Case(s, fmt.Sprint(l), func() {
			refused := func(f func() error) (ok bool) {
				defer func() {
					if r := recover(); r != nil {
						ok = true
					}
				}()
				return f() != nil
			}
			w := &failWriter{failAt: -1}
			if !refused(func() error { return trie.NewBinaryStreamWriter(w).Write([]byte(pat(l, 1)), []byte("v")) }) {
				failf("key of %d bytes is written to the stream as %d bytes", l, len(w.data))
			}
			if !refused(func() error {
				_, err := trie.DumpToFile(orderedKV{{pat(l, 1), "v"}}, filepath.Join(dir, "long"))
				return err
			}) {
				failf("key of %d bytes is dumped", l)
			}
			if !refused(func() error { return trie.WriteBytes16(w, []byte(pat(l, 1))) }) {
				failf("WriteBytes16 accepts %d bytes", l)
			}
		})
	}
	end()

	// files
	s, end = c.Begin("files", "sequences of pairs written to a stream file and dumped: every truncation, every writing failure (limit of the file size at each byte), stop of the consumer")
	var fs [][]kvw
	for _, p := range seqs {
		if len(p) <= 2 {
			fs = append(fs, p)
		}
	}
	fs = append(fs, ls...)
	for i, p := range fs {
		if c.quick() && i > 20 && i%3 != 0 || c.Done() {
			continue
		}
		p := p
		c.Case(s, pairsStr(p), func() { atomic.AddInt64(&s.Transitions, judgeFiles(dir, p, true)) })
	}
	end()

	s, end = c.Begin("stores", "all subsets of 6 keys: in-memory stores dumped and restored into another store")
	for sub := 0; sub < 64; sub++ {
		sub := sub
		c.Case(s, fmt.Sprint(sub), func() {
			for _, un := range sortedNames(universes6) {
				src, dst := trie.NewInMemoryKVStore(), trie.NewInMemoryKVStore()
				want := map[string]string{}
				for i, k := range universes6[un] {
					if sub&(1<<uint(i)) != 0 {
						v := pat(1+i*40, byte(i))
						src.Set([]byte(k), []byte(v))
						want[k] = v
					}
				}
				f := filepath.Join(dir, fmt.Sprintf("store%d", sub))
				n, err := trie.DumpToFile(src, f)
				if err != nil || n != trie.ByteSize(src) {
					failf("dumped %d bytes of %d: %v", n, trie.ByteSize(src), err)
				}
				m, err := trie.UnDumpFromFile(dst, f)
				_ = os.Remove(f)
				if err != nil || n != m {
					failf("dumped %d bytes, restored %d: %v", n, m, err)
				}
				got := map[string]string{}
				dst.Iterate(func(k, v []byte) bool {
					got[string(k)] = string(v)
					return true
				})
				if !eqMap(got, want) || trie.NumEntries(dst) != len(want) {
					failf("dumped %s, restored %s", mapStr(want), mapStr(got))
				}
			}
		})
	}
	end()

	s, end = c.Begin("files that can't be used", "missing file and folder, folder instead of a file, full device")
	c.Case(s, "all", func() {
		missing := filepath.Join(dir, "missing", "x")
		if _, err := trie.DumpToFile(orderedKV{{"a", "b"}}, missing); err == nil {
			failf("dump to a missing folder is not reported")
		}
		if _, err := trie.UnDumpFromFile(&recorder{}, missing); err == nil {
			failf("missing dump is not reported")
		}
		if _, err := trie.UnDumpFromFile(&recorder{}, dir); err == nil {
			failf("failure to read the dump is not reported")
		}
		if _, err := trie.CreateKVStreamFile(missing); err == nil {
			failf("stream file in a missing folder is not reported")
		}
		if _, err := trie.OpenKVStreamFile(missing); err == nil {
			failf("missing stream file is not reported")
		}
		if it, err := trie.OpenKVStreamFile(dir); err == nil {
			if p, err := collect(it, 0); err == nil {
				failf("failure to read the stream file is not reported, read %s", pairsStr(p))
			}
		}
		if st, err := os.Stat("/dev/full"); err == nil && st.Mode()&os.ModeCharDevice != 0 {
			if _, err := trie.DumpToFile(orderedKV{{"a", "b"}}, "/dev/full"); err == nil {
				failf("dump to a full device is not reported")
			}
			if w, err := trie.CreateKVStreamFile("/dev/full"); err == nil {
				if err := w.Write([]byte("a"), []byte("b")); err == nil {
					failf("writing to a full device is not reported")
				}
			}
		}
	})
	end()

	c.primitives()
}

// primitives: length-prefixed data and numbers
func (c *Ctx) primitives() {
	type prim struct {
		name  string
		max   int
		write func(w io.Writer, b []byte) error
		read  func(r io.Reader) ([]byte, error)
	}
	prims := []prim{
		{"Bytes8", 255, trie.WriteBytes8, trie.ReadBytes8},
		{"Bytes16", 65535, trie.WriteBytes16, trie.ReadBytes16},
		{"Bytes32", 1 << 30, trie.WriteBytes32, trie.ReadBytes32},
	}
	for _, p := range prims {
		p := p
		s, end := c.Begin("length-prefixed data "+p.name, "all lengths 0..600 and boundary lengths x 3 patterns x every truncation, split, read and write failure")
		lens := append(rng(0, 600, 1), 4096, 65534, 65535, 65536, 100000)
		c.Par(len(lens), func(i int) {
			l := lens[i]
			c.Case(s, fmt.Sprint(l), func() {
				for salt := 0; salt < 3; salt++ {
					data := []byte(pat(l, byte(salt)))
					if salt == 2 {
						data = make([]byte, l)
					}
					if l > p.max {
						err := fmt.Errorf("panic")
						func() {
							defer func() { recover() }()
							err = p.write(io.Discard, data)
						}()
						if err == nil {
							failf("%d bytes are accepted", l)
						}
						continue
					}
					rd := func(r io.Reader) (string, error) {
						b, err := p.read(r)
						return string(b), err
					}
					atomic.AddInt64(&s.Transitions, checkCodec(codec{name: p.name, want: string(data), read: rd,
						write: func(w io.Writer) error { return p.write(w, data) }}, false))
				}
			})
		})
		end()
	}
	s, end := c.Begin("numbers", "all uint8 and uint16, uint32 with all bytes from {00,01,7f,80,ff}, x truncations and wrong lengths")
	c.Case(s, "uint16", func() {
		for v := 0; v < 65536; v++ {
			atomic.AddInt64(&s.Transitions, 1)
			b := trie.Uint16To2Bytes(uint16(v))
			x, err := trie.Uint16From2Bytes(b)
			var y uint16
			var w bytes.Buffer
			_ = trie.WriteUint16(&w, uint16(v))
			if !bytes.Equal(w.Bytes(), b) {
				failf("%d is written as %x and converted to %x", v, w.Bytes(), b)
			}
			err2 := trie.ReadUint16(&pieceReader{data: b, sizes: []int{1}}, &y)
			if err != nil || err2 != nil || int(x) != v || int(y) != v || len(b) != 2 {
				failf("%d is converted to %x, back to %d (%v), read as %d (%v)", v, b, x, err, y, err2)
			}
			if v < 256 {
				var w bytes.Buffer
				_ = trie.WriteByte(&w, byte(v))
				if z, err := trie.ReadByte(&w); err != nil || int(z) != v {
					failf("byte %d is read as %d", v, z)
				}
			}
		}
	})
	c.Case(s, "uint32", func() {
		c.forStrings([]byte{0, 1, 0x7f, 0x80, 0xff}, 4, func(p []byte) {
			v := binary.LittleEndian.Uint32(p)
			b := trie.Uint32To4Bytes(v)
			x, err := trie.Uint32From4Bytes(b)
			var y uint32
			var w bytes.Buffer
			_ = trie.WriteUint32(&w, v)
			err2 := trie.ReadUint32(&pieceReader{data: w.Bytes(), sizes: []int{1}}, &y)
			if err != nil || err2 != nil || x != v || y != v || trie.MustUint32From4Bytes(b) != v || len(b) != 4 {
				panic(failure{fmt.Sprintf("%d is converted to %x, back to %d (%v), read as %d (%v)", v, b, x, err, y, err2)})
			}
		})
	})
	c.Case(s, "short data", func() {
		for l := 0; l < 6; l++ {
			d := make([]byte, l)
			var x16 uint16
			var x32 uint32
			if _, err := trie.Uint16From2Bytes(d); (err == nil) != (l == 2) {
				failf("uint16 from %d bytes: %v", l, err)
			}
			if _, err := trie.Uint32From4Bytes(d); (err == nil) != (l == 4) {
				failf("uint32 from %d bytes: %v", l, err)
			}
			if err := trie.ReadUint16(bytes.NewReader(d), &x16); (err == nil) != (l >= 2) {
				failf("uint16 read from %d bytes: %v", l, err)
			}
			if err := trie.ReadUint32(bytes.NewReader(d), &x32); (err == nil) != (l >= 4) {
				failf("uint32 read from %d bytes: %v", l, err)
			}
			if _, err := trie.ReadByte(bytes.NewReader(d)); (err == nil) != (l >= 1) {
				failf("byte read from %d bytes: %v", l, err)
			}
		}
	})
	end()
}

// randStreams: the generator is a function of its parameters
func (c *Ctx) randStreams() {
	seeds := []int64{0, 1, -1, 31415926535, 1<<63 - 1}
	nums := []int{1, 2, 3, 255, 256, 257, c.pick(1000, 66000)}
	lens := []int{2, 3, 20, 64, 255, 256, 257, 300}
	s, end := c.Begin("pseudo-random streams", fmt.Sprintf("%d seeds x %d numbers of pairs x %d maximal lengths of keys x %d of values; a consumer which stops at the first, second, middle, last pair", len(seeds), len(nums), len(lens), len(lens)))
	defer end()
	c.Par(len(seeds)*len(nums)*len(lens)*len(lens), func(i int) {
		par := trie.RandStreamParams{Seed: seeds[i%len(seeds)], NumKVPairs: nums[i/len(seeds)%len(nums)],
			MaxKey: lens[i/len(seeds)/len(nums)%len(lens)], MaxValue: lens[i/len(seeds)/len(nums)/len(lens)]}
		if par.NumKVPairs > 300 && par.MaxKey != par.MaxValue {
			return
		}
		c.Case(s, fmt.Sprintf("%+v", par), func() {
			all, err := collect(trie.NewRandStreamIterator(par), 0)
			if err != nil || len(all) != par.NumKVPairs {
				failf("%d pairs (%v), expected %d", len(all), err, par.NumKVPairs)
			}
			kinds := map[string]bool{}
			for j, p := range all {
				if len(p.k) == 0 || len(p.v) == 0 || len(p.k) > par.MaxKey || len(p.v) > par.MaxValue {
					failf("pair #%d has a key of %d bytes and a value of %d bytes", j, len(p.k), len(p.v))
				}
				kinds[p.k+"/"+p.v] = true
			}
			if len(all) >= 255 && len(kinds) < 200 {
				failf("%d different pairs of %d", len(kinds), len(all))
			}
			again, _ := collect(trie.NewRandStreamIterator(par), 0)
			if !eqPairs(all, again) {
				failf("the same parameters give other pairs")
			}
			for _, stop := range []int{1, 2, len(all) / 2, len(all)} {
				if stop < 1 || stop > len(all) {
					continue
				}
				// what was given before a stop is the beginning of the same sequence
				it := trie.NewRandStreamIterator(par)
				first, err := collect(it, stop)
				if err != nil || !eqPairs(first, all[:stop]) {
					failf("stopped after %d pairs: %d pairs (%v), not the first ones", stop, len(first), err)
				}
			}
			atomic.AddInt64(&s.Transitions, int64(3*len(all)))
		})
	})
}
