package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sync/atomic"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/trie"
)

// Large numbers of entries, and many repetitions, of what is not the trie itself

// manyKeys are n different keys of 1 to 3 bytes in an order which is neither sorted nor regular
func manyKeys(n int) []string {
	r := make([]string, n)
	for j := range r {
		x := j * 40503 // odd: a permutation of the 16 bit numbers
		switch {
		case j >= 65536:
			r[j] = string([]byte{byte(x), byte(j), byte(x >> 8)})
		case j%97 == 96 && j < 97*256:
			r[j] = string([]byte{byte(j / 97)})
		default:
			r[j] = string([]byte{byte(x >> 8), byte(x)})
		}
	}
	return dedup(r)
}

// manyData: a model which has seen many data and nodes commits to each of them as a new model does, and to all differently
func (c *Ctx) manyData(cfg Cfg) {
	n := c.pick(1<<19, 1<<22)
	m := cfg.NewModel()
	s, end := c.Begin("many data "+cfg.String(), fmt.Sprintf("%d data of 48 bytes with one model, twice; all commitments are different and those of a new model", n))
	const blk = 4096
	coms := make([][]byte, n)
	data := func(i int) []byte {
		b := []byte(pat(48, 9))
		binary.BigEndian.PutUint32(b[(i%6)*8:], uint32(i))
		return b
	}
	for rep := 0; rep < 2; rep++ {
		c.Par(n/blk, func(x int) {
			c.Case(s, fmt.Sprintf("data %d..", x*blk), func() {
				f := cfg.NewModel()
				for i := x * blk; i < (x+1)*blk; i++ {
					a := m.CommitToData(data(i)).Bytes()
					if i%(1+3*(1-rep)) == 0 {
						if b := f.CommitToData(data(i)).Bytes(); !bytes.Equal(a, b) {
							failf("commitment to %x is %x, of a new model %x", data(i), a, b)
						}
					}
					coms[i] = a
				}
			})
		})
	}
	seen := make(map[string]int, n)
	for i, a := range coms {
		if a == nil {
			continue // out of time
		}
		if j, ok := seen[string(a)]; ok && !bytes.Equal(data(i), data(j)) {
			c.Case(s, fmt.Sprintf("data %d and %d", j, i), func() { failf("data %x and %x have the same commitment %x", data(j), data(i), a) })
			break
		}
		seen[string(a)] = i
	}
	s.States, s.Transitions = int64(len(seen)), int64(2*n)
	end()
	nn := n / 4
	s, end = c.Begin("many nodes "+cfg.String(), fmt.Sprintf("%d nodes with one model: all commitments are different and those of a new model", nn))
	vc := make([][]byte, nn)
	t := m.CommitToData([]byte("t"))
	c.Par(nn/blk, func(x int) {
		c.Case(s, fmt.Sprintf("nodes %d..", x*blk), func() {
			f := cfg.NewModel()
			for i := x * blk; i < (x+1)*blk; i++ {
				nd := trie.NewNodeData()
				nd.PathFragment = []byte(unpackRef(string([]byte{byte(i), byte(i >> 8), byte(i >> 16)}), cfg.Arity))
				nd.Terminal = t
				if i%2 == 1 {
					nd.ChildCommitments[byte(i)%2] = m.CalcNodeCommitment(&trie.NodeData{Terminal: t, PathFragment: nd.PathFragment})
				}
				a, b := commBytes(m.CalcNodeCommitment(nd)), commBytes(f.CalcNodeCommitment(nd))
				if !bytes.Equal(a, b) {
					failf("commitment to the node %s is %x, of a new model %x", nd, a, b)
				}
				vc[i] = a
			}
		})
	})
	seen = make(map[string]int, nn)
	for i, a := range vc {
		if a == nil {
			continue // out of time
		}
		if j, ok := seen[string(a)]; ok {
			c.Case(s, fmt.Sprintf("nodes %d and %d", j, i), func() { failf("nodes number %d and %d have the same commitment %x", j, i, a) })
			break
		}
		seen[string(a)] = i
	}
	s.States, s.Transitions = int64(len(seen)), int64(2*nn)
	end()
}

// largeReconcile: many entries of the store, none, some, all inconsistent
func (c *Ctx) largeReconcile(cfg Cfg, sizes []int) {
	s, end := c.Begin("large reconcile "+cfg.String(), fmt.Sprintf("%v keys: none, every second, every third, all of them inconsistent in 2 ways; mass update", sizes))
	defer end()
	c.Par(len(sizes)*6, func(i int) {
		keys, kind := manyKeys(sizes[len(sizes)-1-i/6]), i%6
		c.Case(s, fmt.Sprintf("%d keys, kind %d", len(keys), kind), func() {
			x := NewSUT(cfg)
			st := map[string]string{}
			var want int
			for j, k := range keys {
				st[k] = "v" + k
				bad := []bool{false, j%2 == 0, j%3 == 0, true, j%2 == 1, true}[kind]
				switch {
				case !bad:
					x.Apply(Op{'U', k, "v" + k})
				case kind < 3:
					x.Apply(Op{'U', k, "w" + k})
				}
				if bad {
					want++
				}
			}
			x.Apply(Op{T: 'P'})
			if kind%2 == 0 {
				x.Apply(Op{T: 'R'})
			}
			got, exp := reported(x.tr, &Store{m: st}), inconsistentKeys(x.content, st)
			if len(exp) != want {
				panic("harness error: inconsistent keys")
			}
			if keysStr(got) != keysStr(exp) {
				failf("%d keys of %d are inconsistent, %d are reported", len(exp), len(st), len(got))
			}
			x.tr.UpdateAll(&Store{m: st})
			x.content = cp(st)
			x.Apply(Op{T: 'C'})
			if r := reported(x.tr, &Store{m: st}); len(r) != 0 {
				failf("%d of %d keys are inconsistent after the mass update", len(r), len(st))
			}
			aspectRoot(x, nil)
			atomic.AddInt64(&s.Transitions, int64(3*len(keys)))
		})
	})
}

// largeStreams: streams, dumps and files of many pairs and of many bytes
func (c *Ctx) largeStreams(dir string) {
	s, end := c.Begin("large streams", "300 to 70000 pairs, up to 32 MB: streams, files, dumps; cut at many places, consumer stops")
	defer end()
	type shape struct{ n, v int }
	shapes := []shape{{255, 3}, {256, 3}, {257, 3}, {1100, 200}, {5000, 20}, {65535, 1}, {65536, 1}, {65537, 1}, {70000, 5}, {70, 70000}, {9, 1 << 20}, {2, 1<<24 + 1}}
	c.Par(len(shapes), func(i int) {
		sh := shapes[len(shapes)-1-i]
		c.Case(s, fmt.Sprintf("%d pairs, values of %d bytes", sh.n, sh.v), func() {
			keys := manyKeys(sh.n)
			p := make([]kvw, len(keys))
			for j, k := range keys {
				p[j] = kvw{k, pat(sh.v, byte(j))}
			}
			same := func(what string, got []kvw, err error, want []kvw, wantErr bool) {
				atomic.AddInt64(&s.Transitions, int64(len(got)))
				if (err != nil) != wantErr || !eqPairs(got, want) {
					j := 0
					for j < len(got) && j < len(want) && got[j] == want[j] {
						j++
					}
					failf("%s: %d pairs read (%v), expected %d, the first %d are right", what, len(got), err, len(want), j)
				}
			}
			var buf bytes.Buffer
			sw := trie.NewBinaryStreamWriter(&buf)
			for j, x := range p {
				if err := sw.Write([]byte(x.k), []byte(x.v)); err != nil {
					failf("pair #%d is not written: %v", j, err)
				}
			}
			if n, b := sw.Stats(); n != len(p) || b != buf.Len() || b != streamSize(p) {
				failf("statistics: %d pairs, %d bytes; %d pairs of %d bytes were written", n, b, len(p), buf.Len())
			}
			data := buf.Bytes()
			got, err := collect(trie.NewBinaryStreamIterator(bytes.NewReader(data)), 0)
			same("stream", got, err, p, false)
			got, err = collect(trie.NewBinaryStreamIterator(&pieceReader{data: data, sizes: []int{4095, 1, 8192, 511}}), 0)
			same("stream in pieces", got, err, p, false)
			for _, j := range []int{1, 2, 255, 256, 257, len(p) / 2, 65535, 65536, len(p)} {
				if j <= len(p) {
					got, err = collect(trie.NewBinaryStreamIterator(bytes.NewReader(data)), j)
					same(fmt.Sprintf("stopped after %d pairs", j), got, err, p[:j], false)
				}
			}
			for _, j := range []int{1, 65535, 65536, 65537, 1 << 20, len(data) / 2, len(data) - 1} {
				if j < len(data) {
					want, boundary := whole(p, j)
					got, err = collect(trie.NewBinaryStreamIterator(bytes.NewReader(data[:j])), 0)
					same(fmt.Sprintf("cut to %d bytes", j), got, err, want, !boundary)
				}
			}
			d, err := os.MkdirTemp(dir, "large")
			if err != nil {
				panic("harness error: " + err.Error())
			}
			defer os.RemoveAll(d)
			f := filepath.Join(d, "f")
			fw, err := trie.CreateKVStreamFile(f)
			if err != nil {
				failf("create: %v", err)
			}
			for _, x := range p {
				if err := fw.Write([]byte(x.k), []byte(x.v)); err != nil {
					failf("write: %v", err)
				}
			}
			if err := fw.Close(); err != nil {
				failf("close: %v", err)
			}
			it, err := trie.OpenKVStreamFile(f)
			if err != nil {
				failf("open: %v", err)
			}
			got, err = collect(it, 0)
			same("file", got, err, p, false)
			_ = it.Close()
			sz, err := trie.DumpToFile(orderedKV(p), f)
			if err != nil || sz != streamSize(p) || trie.ByteSize(orderedKV(p)) != sz || trie.NumEntries(orderedKV(p)) != len(p) {
				failf("dump: %d bytes (%v) of %d; ByteSize %d, NumEntries %d of %d", sz, err, streamSize(p), trie.ByteSize(orderedKV(p)), trie.NumEntries(orderedKV(p)), len(p))
			}
			r := &recorder{}
			usz, err := trie.UnDumpFromFile(r, f)
			if usz != sz {
				failf("restored %d bytes of %d", usz, sz)
			}
			same("restored dump", r.p, err, p, false)
		})
	})
}

// largeStores: partitions with many entries, and many writes of one entry
func (c *Ctx) largeStores() {
	s, end := c.Begin("large partitions", "300, 5000 and 70000 keys in each of two partitions: written, overwritten, deleted, cleared; 65537 writes of one key")
	defer end()
	sizes := []int{70000, 5000, 300}
	kinds := []string{"mapdb", "memory", "cleared reference"}
	c.Par(len(sizes)*len(kinds), func(i int) {
		keys, kind := manyKeys(sizes[i/len(kinds)]), kinds[i%len(kinds)]
		c.Case(s, fmt.Sprintf("%s %d keys", kind, len(keys)), func() {
			var ps []*part
			var kvs kvstore.KVStore
			switch kind {
			case "mapdb":
				kvs = mapdb.NewMapDB()
			case "cleared reference":
				kvs = newFakeKV()
			}
			for _, p := range []string{"\x01", "\x02"} {
				if kvs == nil {
					ps = append(ps, &part{p, trie.NewInMemoryKVStore(), map[string]string{}})
				} else {
					ps = append(ps, &part{p, hive_adaptor.NewHiveKVStoreAdaptor(kvs, []byte(p)), map[string]string{}})
				}
			}
			check := func() {
				for _, x := range ps {
					for _, k := range keys {
						v := x.st.Get([]byte(k))
						w, ok := x.m[k]
						if ok != (v != nil) || string(v) != w || x.st.Has([]byte(k)) != ok {
							failf("partition %s: Get(%s) is %x, expected %s", q(x.prefix), q(k), v, q(w))
						}
					}
					got := map[string]string{}
					x.st.Iterate(func(k, v []byte) bool {
						got[string(k)] = string(v)
						return true
					})
					if !eqMap(got, x.m) || trie.NumEntries(x.st) != len(x.m) {
						failf("partition %s: iteration visits %d entries of %d", q(x.prefix), len(got), len(x.m))
					}
					for _, stop := range []int{1, 255, 256, 257, 65535, 65536, 65537} {
						n := 0
						if stop > len(x.m) {
							break
						}
						x.st.Iterate(func(k, v []byte) bool {
							n++
							return n < stop
						})
						if n != stop {
							failf("iteration to be stopped after %d entries visits %d", stop, n)
						}
					}
				}
				atomic.AddInt64(&s.Transitions, int64(2*len(keys)))
			}
			set := func(p int, k, v string) { kvOp{p, k, v, 0}.apply(ps) }
			for j, k := range keys {
				set(0, k, fmt.Sprint("v", j))
				set(1, k, fmt.Sprint("w", j))
			}
			check()
			for j, k := range keys {
				switch j % 3 {
				case 0:
					set(0, k, "")
				case 1:
					set(1, k, fmt.Sprint("x", j))
				}
			}
			check()
			if len(keys) < 1000 {
				for j := 0; j < 65537; j++ {
					set(j%2, keys[0], fmt.Sprint("y", j))
				}
				check()
			}
			for _, k := range keys {
				set(1, k, "")
			}
			check()
		})
	})
}

// largeUpdater: batches of many mutations, and many batches
func (c *Ctx) largeUpdater() {
	sizes := []int{70, 300, 1100, c.pick(5000, 70000)}
	for _, cfg := range []Cfg{b2b(a256, h160), b2b(a16, h256).thr(1)} {
		cfg := cfg
		s, end := c.Begin("large batches "+cfg.String(), fmt.Sprintf("%v updates in a batch, values up to 64 KB; failure of each call of Batched, Commit and Flush, with and without effect", sizes))
		c.Par(len(sizes), func(i int) {
			keys := manyKeys(sizes[len(sizes)-1-i])
			run := func(failAt int, after bool) []int {
				r := newUpdRun(cfg, "t", "v")
				var important []int
				r.f.failAt, r.f.after = failAt, after
				r.f.onCall = func(kind string) {
					if kind == "Batched" || kind == "batch.Commit" || kind == "Flush" {
						important = append(important, r.f.calls+1)
						r.judge()
					}
				}
				up := func(k, v string) {
					kb, vb := []byte(k), []byte(v)
					r.f.failed = ""
					if _, p := raised(func() { r.u.Update(kb, vb) }); p {
						if r.f.failed == "" {
							failf("Update panics without a failure of the store")
						}
						if r.f.failed != "Batched" {
							panic("harness error: unexpected failure")
						}
						r.judge()
						r.u.Update([]byte(k), []byte(v)) // nothing has happened
					} else if r.f.failed != "" {
						failf("failure of %s is not reported", r.f.failed)
					}
					if v == "" {
						delete(r.content, k)
					} else {
						r.content[k] = v
					}
				}
				long := pat(1<<16, 7)
				for j, k := range keys {
					if j%1000 == 7 {
						up(k, long)
						continue
					}
					up(k, "v"+k)
				}
				r.step(Op{T: 'C'})
				for j, k := range keys {
					switch j % 3 {
					case 0:
						up(k, "")
					case 1:
						up(k, "w"+k)
					}
				}
				r.step(Op{T: 'C'})
				r.final()
				atomic.AddInt64(&s.Transitions, int64(2*len(keys)))
				return important
			}
			var calls []int
			c.Case(s, fmt.Sprintf("%d updates", len(keys)), func() { calls = run(0, false) })
			for _, n := range calls {
				for _, after := range []bool{false, true} {
					if c.Done() {
						return
					}
					c.Case(s, fmt.Sprintf("%d updates, call %d fails, %v", len(keys), n, after), func() { run(n, after) })
				}
			}
		})
		end()
	}
	s, end := c.Begin("many batches", "65537 commits of one updater")
	defer end()
	for _, cfg := range []Cfg{b2b(a256, h160), b2b(a16, h256).thr(1)} {
		cfg := cfg
		c.Case(s, cfg.String(), func() {
			r := newUpdRun(cfg, "t", "v")
			r.f.onCall = nil
			for j := 0; j < 65537; j++ {
				k, v := string([]byte{byte(j % 3)}), fmt.Sprint("v", j)
				if j%5 == 0 {
					v = ""
				}
				r.u.Update([]byte(k), []byte(v))
				if v == "" {
					delete(r.content, k)
				} else {
					r.content[k] = v
				}
				if err := r.u.Commit(); err != nil {
					failf("commit %d: %v", j, err)
				}
				r.f.kinds = r.f.kinds[:0]
				if j%4096 > 4090 || j%256 == 0 {
					r.committed = cp(r.content)
					r.judge()
				}
			}
			r.committed = cp(r.content)
			r.final()
			atomic.AddInt64(&s.Transitions, 2*65537)
		})
	}
}
