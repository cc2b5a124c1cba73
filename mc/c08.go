package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync/atomic"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3/pairing/bn256"
)

func init() {
	register("C08", "fault_enumeration", runC08)
}

// hostile enumerates byte strings for the decoder
type hostile struct {
	name  string
	run   func(data []byte) string // must not panic; returns what happened
	seeds map[string][]byte        // valid encodings which are corrupted
	// short: all strings up to this length
	short int
	// headers: all strings of up to tail bytes after each header
	headers [][]byte
	tail    int
	// singles: values for single corruptions; nil means all 256
	singles []byte
	// doubles: positions up to which pairs are corrupted
	doubles int
	// big tells that the byte at the position must not be set to high values (it would allocate gigabytes)
	big func(seed []byte, pos int) bool
}

var hostileVals = []byte{0, 1, 2, 0x0f, 0x10, 0x7f, 0x80, 0xff}

func (c *Ctx) hostile(h hostile) {
	if c.Done() {
		return
	}
	// all short strings
	s, end := c.Begin(h.name+": all short strings", fmt.Sprintf("all byte strings of length 0..%d; all strings of length 0..%d after %d headers", h.short, h.tail, len(h.headers)))
	do := func(d []byte) { c.outcomeFast(h.name + ": " + h.run(d)) }
	var enum func(pre []byte, n int, cnt *int64)
	enum = func(pre []byte, n int, cnt *int64) {
		do(append([]byte{}, pre...))
		*cnt++
		if n == 0 {
			return
		}
		for b := 0; b < 256; b++ {
			enum(append(append([]byte{}, pre...), byte(b)), n-1, cnt)
		}
	}
	c.Par(257, func(i int) {
		id := "empty"
		if i > 0 {
			id = fmt.Sprintf("%02x...", i-1)
		}
		c.Case(s, id, func() {
			n := int64(0)
			if i == 0 {
				do(nil)
				do([]byte{})
				n += 2
			} else if h.short > 0 {
				enum([]byte{byte(i - 1)}, h.short-1, &n)
			}
			atomic.AddInt64(&s.Transitions, n)
		})
	})
	c.Par(len(h.headers), func(i int) {
		c.Case(s, fmt.Sprintf("header %x", h.headers[i]), func() {
			n := int64(0)
			enum(h.headers[i], h.tail, &n)
			atomic.AddInt64(&s.Transitions, n)
		})
	})
	end()
	// corruption of valid encodings
	s2, end2 := c.Begin(h.name+": corrupted encodings", fmt.Sprintf("%d valid encodings x (all truncations, every byte set to every value, removed, repeated, truncated after a corruption; pairs among the first %d bytes)", len(h.seeds), h.doubles))
	defer end2()
	type job struct {
		name string
		seed []byte
		pos  int
	}
	var jobs []job
	for name, sd := range h.seeds {
		for p := range sd {
			jobs = append(jobs, job{name, sd, p})
		}
	}
	c.Par(len(jobs), func(i int) {
		j := jobs[i]
		c.Case(s2, fmt.Sprintf("%s byte %d", j.name, j.pos), func() {
			n := int64(0)
			try := func(d []byte) { n++; do(d) }
			try(j.seed[:j.pos])
			set := func(b byte) []byte {
				d := append([]byte{}, j.seed...)
				d[j.pos] = b
				return d
			}
			vals := h.singles
			if vals == nil {
				for b := 0; b < 256; b++ {
					vals = append(vals, byte(b))
				}
			} else {
				o := j.seed[j.pos]
				vals = append(append([]byte{}, vals...), o+1, o-1, o^1, o^0x80, ^o)
			}
			for _, b := range vals {
				if b == j.seed[j.pos] {
					continue
				}
				if h.big != nil && h.big(j.seed, j.pos) && b > 3 {
					continue
				}
				try(set(b))
			}
			try(append(append([]byte{}, j.seed[:j.pos]...), j.seed[j.pos+1:]...))                          // removed
			try(append(append(append([]byte{}, j.seed[:j.pos+1]...), j.seed[j.pos]), j.seed[j.pos+1:]...)) // repeated
			try(append(append([]byte{}, j.seed[:j.pos]...), make([]byte, len(j.seed)-j.pos)...))           // zeroed from here
			try(j.seed[j.pos:])
			for _, b := range hostileVals {
				if h.big != nil && h.big(j.seed, j.pos) && b > 3 {
					continue
				}
				d := set(b)
				for _, cut := range []int{j.pos + 1, j.pos + 2, j.pos + 3, j.pos + 20, len(d) - 1} {
					if cut > j.pos && cut < len(d) {
						try(d[:cut])
					}
				}
				if j.pos < h.doubles {
					for p2 := j.pos + 1; p2 < h.doubles && p2 < len(d); p2++ {
						for _, b2 := range hostileVals {
							if h.big != nil && h.big(j.seed, p2) && b2 > 3 {
								continue
							}
							d2 := append([]byte{}, d...)
							d2[p2] = b2
							try(d2)
						}
					}
				}
			}
			atomic.AddInt64(&s2.Transitions, n)
		})
	})
}

func runC08(c *Ctx) {
	contents := []map[string]string{
		{"a": "1", "ab": "x22", "ac": pat(40, 1), "b": "2"},
		{"": "1"},
		{"aaaa": "1", "aaab": "2"},
	}
	// blake2b proofs, decoded and validated
	ps := map[string][]byte{}
	var roots [][]byte
	for _, cfg := range allB2B() {
		for ci, ct := range contents {
			if c.quick() && (ci+int(cfg.HS)/12)%2 == 0 {
				continue
			}
			fs := buildForgeState(cfg, ct, []string{"a", "ab", "ac", "", "abz", "q"})
			roots = append(roots, fs.tr.root)
			for i, p := range fs.proofs {
				if c.quick() && cfg.Arity == a256 && i%2 == 1 {
					continue
				}
				ps[fmt.Sprintf("%s %s %s", cfg, mapStr(ct), q(fs.kinds[i]))] = p.Bytes()
			}
		}
	}
	proofRun := func(d []byte) string {
		p, err := trie_blake2b.ProofFromBytes(d)
		if err != nil {
			return "not decoded"
		}
		if !bytes.Equal(p.Bytes(), d) {
			// unused bits; must be stable
			p2, err := trie_blake2b.ProofFromBytes(p.Bytes())
			if err != nil || proofFull(p2) != proofFull(p) {
				failf("decoded proof is not decoded after serialization: %x", short(d))
			}
		}
		acc := "rejected"
		for i := 0; i < len(roots)+2; i++ {
			var root []byte
			if i < len(roots) {
				if i%4 != int(d[len(d)-1])%4 {
					continue
				}
				root = roots[i]
			} else if i == len(roots) {
				root = []byte{1}
			}
			if trie_blake2b_verify.Validate(p, root) == nil {
				acc = "accepted"
				trie_blake2b_verify.IsProofOfAbsence(p)
				trie_blake2b_verify.MustKeyWithTerminal(p)
				trie_blake2b_verify.CommitmentToTheTerminalNode(p)
			}
			_ = trie_blake2b_verify.ValidateWithValue(p, root, nil)
			_ = trie_blake2b_verify.ValidateWithValue(p, root, []byte("1"))
			_ = trie_blake2b_verify.ValidateWithValue(p, root, []byte(pat(40, 1)))
		}
		return acc
	}
	var hdr [][]byte
	for a := 0; a < 256; a++ {
		for _, h := range []byte{0, 20, 32, 33, 255} {
			hdr = append(hdr, []byte{byte(a), h})
		}
	}
	// valid head, one element, with every value in the bytes that follow
	for _, a := range []byte{1, 15, 255} {
		for _, k := range [][]byte{{0, 0}, {1, 0, 7}, {2, 0, 1, 0x10}, {2, 0, 0, 0x11}} {
			for _, n := range []byte{0, 1, 2, 255} {
				hdr = append(hdr, append(append([]byte{a, 20}, k...), n, 0))
				for _, pf := range [][]byte{{0, 0}, {1, 0, 0}, {2, 0, 1, 0}, {2, 0, 0, 0x10}} {
					hdr = append(hdr, append(append(append([]byte{a, 32}, k...), n, 0), pf...))
					for _, ix := range []byte{0, 1, 2, 15, 16, 17, 255} {
						hdr = append(hdr, append(append(append(append([]byte{a, 32}, k...), n, 0), pf...), ix, 0))
						hdr = append(hdr, append(append(append(append([]byte{a, 20}, k...), n, 0), pf...), ix, 1))
					}
				}
			}
		}
	}
	c.hostile(hostile{name: "blake2b proof", run: proofRun, seeds: ps, short: 2, headers: hdr, tail: c.pick(1, 2), singles: hostileSingles(c), doubles: c.pick(0, 14)})
	small := map[string][]byte{}
	for _, n := range sortedKeysB(ps) {
		if len(ps[n]) < 60 {
			small[n] = ps[n]
		}
	}
	c.hostile(hostile{name: "small blake2b proof", run: proofRun, seeds: small, singles: nil, doubles: 60})

	// node records
	for _, cfg := range append(allB2B(), cfgKZG, b2b(a16, h160).thr(30).opt(), b2b(a256, h160).thr(30), b2b(a2, h256).opt()) {
		recs := map[string][]byte{}
		for _, ct := range contents {
			st := expectFor(cfg, ct).store
			for k, v := range st {
				recs[fmt.Sprintf("%s of %s", q(k), mapStr(ct))] = []byte(v)
			}
		}
		m := cfg.NewModel()
		stores := []trie.KVReader{nil, NewStore(), &Store{m: map[string]string{"": "1", "a": "1", "ab": "2", "\x11": "3", "\x07": "4"}}}
		keys := [][]byte{nil, {1}, {1, 1}, {0, 0, 0, 0, 0, 1, 1, 1}, {'a'}}
		var hd [][]byte
		for f := 0; f < 256; f++ {
			for _, l := range []byte{0, 1, 2} {
				hd = append(hd, []byte{byte(f), l, 0})
			}
		}
		h := hostile{name: "node record " + cfg.String(), seeds: recs, short: 2, headers: hd, tail: 1, doubles: c.pick(6, 30)}
		if cfg.Kind == "kzg" {
			h.singles = hostileVals
		} else if c.quick() {
			h.singles = hostileSingles(c)
		}
		h.run = func(d []byte) string {
			ok := 0
			for _, vs := range stores {
				for _, k := range keys {
					n, err := trie.NodeDataFromBytes(m, d, k, cfg.Arity, vs)
					if err == nil {
						ok++
						_ = n.String()
						n.Clone()
						m.CalcNodeCommitment(n)
						if len(n.PathFragment) > 70000*8 {
							failf("path fragment longer than the data")
						}
					}
				}
				if cfg.Kind == "kzg" {
					break
				}
			}
			if ok > 0 {
				return "decoded"
			}
			return "rejected"
		}
		c.hostile(h)
	}
	// commitments
	for _, cfg := range append(allB2B(), cfgKZG) {
		m := cfg.NewModel()
		tr := newTrie(cfg, m, NewStore(), NewStore())
		seeds := map[string][]byte{}
		for _, v := range []string{"1", pat(20, 1), pat(32, 2), pat(50, 3)} {
			t := m.CommitToData([]byte(v))
			seeds["t"+q(v)] = t.Bytes()
			seeds["v"+q(v)] = m.CalcNodeCommitment(&trie.NodeData{Terminal: t}).Bytes()
		}
		c.hostile(hostile{name: "commitments " + cfg.String(), seeds: seeds, short: 2, doubles: c.pick(8, 33), run: func(d []byte) string {
			r := ""
			if v, err := tr.VectorCommitmentFromBytes(d); err == nil {
				r += "vector "
				_ = v.String()
				m.EqualCommitments(v, v.Clone())
			}
			t := m.NewTerminalCommitment()
			if readFrom(t, d) == nil {
				r += "terminal"
				_ = t.String()
				m.EqualCommitments(t, t.Clone())
			}
			return r
		}})
	}
	// keys
	kseeds := map[string][]byte{"x": {1, 0x12, 0x30}, "y": {7, 0x80}, "z": {0, 1, 2, 3, 4}}
	for _, ar := range allArity {
		ar := ar
		c.hostile(hostile{name: fmt.Sprintf("encoded key arity %d", int(ar)+1), short: c.pick(2, 3), seeds: kseeds, doubles: 5, run: func(d []byte) string {
			u, err := trie.DecodeToUnpackedBytes(d, ar)
			if err != nil {
				return "rejected"
			}
			if len(u) > len(d)*8 {
				failf("decoded %d symbols from %d bytes", len(u), len(d))
			}
			return "decoded"
		}})
	}
	c.hostile(hostile{name: "encoded key, all wrong arities", short: 1, seeds: kseeds, doubles: 0, run: func(d []byte) string {
		for a := 0; a < 256; a++ {
			if a == 1 || a == 15 || a == 255 {
				continue
			}
			if _, err := trie.DecodeToUnpackedBytes(d, trie.PathArity(a)); err == nil && len(d) > 0 {
				failf("decoded %x with arity value %d", d, a)
			}
		}
		return "rejected"
	}})
	// streams and length-prefixed data
	c.hostileStreams()
	// KZG
	c.hostileKZG()
	c.flushOutcomes()
}

func hostileSingles(c *Ctx) []byte {
	if c.quick() {
		return append([]byte{3, 4, 8, 15, 17, 20, 31, 32, 33, 64, 0xc0, 254}, hostileVals...)
	}
	return nil
}

func sortedKeysB(m map[string][]byte) []string {
	x := map[string]string{}
	for k := range m {
		x[k] = ""
	}
	return sortedKeys(x)
}

// refStream is the reference parser of streams of pairs
func refStream(d []byte) (pairs []kvw, valid, huge bool) {
	for len(d) > 0 {
		if len(d) < 2 {
			return pairs, false, false
		}
		n := int(d[0]) | int(d[1])<<8
		d = d[2:]
		if len(d) < n {
			return pairs, false, false
		}
		k := string(d[:n])
		d = d[n:]
		if len(d) < 4 {
			return pairs, false, false
		}
		n = int(d[0]) | int(d[1])<<8 | int(d[2])<<16 | int(d[3])<<24
		d = d[4:]
		if n > 1<<20 {
			return pairs, false, true
		}
		if len(d) < n {
			return pairs, false, false
		}
		pairs = append(pairs, kvw{k, string(d[:n])})
		d = d[n:]
	}
	return pairs, true, false
}

func (c *Ctx) hostileStreams() {
	// lengths of 4 bytes may ask for gigabytes: those are tried one after another below
	var buf bytes.Buffer
	w := trie.NewBinaryStreamWriter(&buf)
	_ = w.Write([]byte("k"), []byte("v"))
	_ = w.Write([]byte(""), []byte("long value"))
	_ = w.Write([]byte("key2"), nil)
	d := buf.Bytes()
	dir := filepath.Join(os.Getenv("MC_TMP"), "c08")
	if os.Getenv("MC_TMP") == "" {
		dir, _ = os.MkdirTemp("", "mc08")
		defer os.RemoveAll(dir)
	}
	_ = os.MkdirAll(dir, 0755)
	var seq int64
	for _, mode := range []string{"stream", "file", "ReadBytes"} {
		mode := mode
		h := hostile{name: mode, short: 1, seeds: map[string][]byte{"3 pairs": d}, doubles: 12}
		if mode == "stream" {
			h.short = 2
		}
		h.run = func(d []byte) string {
			n := 0
			want, valid, huge := refStream(d)
			if huge {
				return "skipped here: declares more than 1MB"
			}
			var got []kvw
			count := func(k, v []byte) bool {
				n += len(k) + len(v) + 6
				got = append(got, kvw{string(k), string(v)})
				return true
			}
			var err error
			switch mode {
			case "stream":
				err = trie.NewBinaryStreamIterator(bytes.NewReader(d)).Iterate(count)
			case "file":
				fn := filepath.Join(dir, fmt.Sprint(atomic.AddInt64(&seq, 1)))
				if err := os.WriteFile(fn, d, 0644); err != nil {
					panic(err)
				}
				st := NewStore()
				nn, e1 := trie.UnDumpFromFile(st, fn)
				it, e2 := trie.OpenKVStreamFile(fn)
				if e2 == nil {
					e2 = it.Iterate(count)
					_ = it.Close()
				}
				_ = os.Remove(fn)
				if (e1 == nil) != (e2 == nil) || e1 == nil && nn != n {
					failf("UnDumpFromFile: %d bytes, %v; stream: %d bytes, %v; data %x", nn, e1, n, e2, d)
				}
				err = e1
			case "ReadBytes":
				r := bytes.NewReader(d)
				if b, e := trie.ReadBytes8(r); e == nil {
					n += len(b)
				}
				r = bytes.NewReader(d)
				if b, e := trie.ReadBytes16(r); e == nil {
					n += len(b)
				}
				if len(d) < 4 || d[3] == 0 {
					r = bytes.NewReader(d)
					if b, e := trie.ReadBytes32(r); e == nil {
						n += len(b)
					}
				}
				if n > 3*len(d) {
					failf("read more data than present")
				}
				return "returned"
			}
			if (err == nil) != valid {
				failf("data %x: returned %v, is valid: %v", d, err, valid)
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				failf("data %x: read %v, expected %v", d, got, want)
			}
			if err != nil {
				return "error"
			}
			return "accepted"
		}
		c.hostile(h)
	}
	// huge lengths, one after another
	s, end := c.Begin("huge lengths", "declared lengths up to 2^32-1 with little or no data")
	defer end()
	for _, l := range [][]byte{{0xff, 0xff, 0xff, 0xff}, {0, 0, 0, 0x80}, {0xff, 0xff, 0xff, 0x7f}, {0, 0, 0, 1}} {
		for _, tail := range []int{0, 1, 100} {
			c.Case(s, fmt.Sprintf("%x + %d bytes", l, tail), func() {
				d := append(append([]byte{1, 0, 'k'}, l...), make([]byte, tail)...)
				if err := trie.NewBinaryStreamIterator(bytes.NewReader(d)).Iterate(func(k, v []byte) bool { return true }); err == nil {
					failf("accepted")
				}
				s.Transitions++
			})
			debug.FreeOSMemory()
		}
	}
}

func (c *Ctx) hostileKZG() {
	m := trie_kzg_bn256.Model
	ct := map[string]string{"a": "1", "ab": "2", "b": "3"}
	rd := trie.NewTrieReader(m, &Store{m: expectFor(cfgKZG, ct).store}, nil)
	root := trie.RootCommitment(rd)
	seeds := map[string][]byte{}
	for _, k := range []string{"a", "ab"} {
		p, _ := m.ProofOfInclusion([]byte(k), rd)
		seeds[k] = p.Bytes()
	}
	other := m.CalcNodeCommitment(&trie.NodeData{PathFragment: []byte("x")})
	run := func(d []byte) string {
		p, err := trie_kzg_bn256.ProofOfInclusionFromBytes(d)
		if err != nil {
			return "not decoded"
		}
		_ = p.String()
		r := "rejected"
		if p.Validate(root) == nil {
			r = "accepted"
		}
		if p.Validate(root, []byte("1")) == nil {
			r = "accepted"
		}
		if p.Validate(nil) == nil || p.Validate(other, nil) == nil || p.Validate(root, nil) == nil {
			failf("accepted with the wrong root or the empty value: %x", d)
		}
		return r
	}
	var hd [][]byte
	for _, n := range []byte{0, 1, 2, 255} {
		for _, t := range []byte{0, 1, 0xff} {
			h := append([]byte{n, 0}, bytes.Repeat([]byte{t}, int(n)+32)...)
			hd = append(hd, h)
			for _, b := range []byte{0, 1, 0xff} {
				hd = append(hd, append(append([]byte{}, h...), append([]byte{1, 0}, bytes.Repeat([]byte{b}, 64)...)...))
				hd = append(hd, append(append([]byte{}, h...), append([]byte{1, 0}, bytes.Repeat([]byte{b}, 130)...)...))
				// infinity, index, infinity
				for _, ix := range [][]byte{{0, 0}, {0, 1}, {1, 1}, {2, 1}, {255, 255}} {
					e := append(append(append([]byte{1, 0}, bytes.Repeat([]byte{b}, 64)...), ix...), bytes.Repeat([]byte{b}, 64)...)
					hd = append(hd, append(append([]byte{}, h...), e...))
				}
			}
		}
	}
	h := hostile{name: "KZG proof", run: run, seeds: seeds, short: 2, headers: hd, tail: 1, singles: hostileVals, doubles: c.pick(4, 10)}
	if !c.quick() {
		h.singles = nil
	}
	c.hostile(h)
	// trusted setups
	suite := bn256.NewSuite()
	ts := map[string][]byte{}
	for d := uint16(1); d <= uint16(c.pick(2, 4)); d++ {
		x, err := trie_kzg_bn256.TrustedSetupFromSeed(suite, d, []byte("seed"))
		if err != nil {
			failf("%v", err)
		}
		ts[fmt.Sprintf("natural %d", d)] = x.Bytes()
		o, _ := trie_kzg_bn256.GenRootOfUnityQuasiPrimitive(suite, 5)
		y, err := trie_kzg_bn256.TrustedSetupFromSecretPowers(suite, d, o, suite.G1().Scalar().SetBytes([]byte(pat(32, 1))))
		if err != nil {
			failf("%v", err)
		}
		ts[fmt.Sprintf("powers %d", d)] = y.Bytes()
	}
	hd = nil
	for _, n := range []byte{0, 1, 2, 255} {
		for _, m := range []byte{0, 1, 255} {
			for _, b := range []byte{0, 1, 0xff} {
				hd = append(hd, append([]byte{n, m}, bytes.Repeat([]byte{b}, 32)...))
				hd = append(hd, append([]byte{n, m}, bytes.Repeat([]byte{b}, 32+64+128)...))
			}
		}
	}
	hd = append(hd, []byte{0, 0}, []byte{1, 0})
	c.hostile(hostile{name: "trusted setup", seeds: ts, short: c.pick(1, 2), headers: hd, tail: c.pick(0, 1), singles: hostileVals, doubles: c.pick(3, 8), run: func(d []byte) string {
		x, err := trie_kzg_bn256.TrustedSetupFromBytes(suite, d)
		if err != nil {
			return "rejected"
		}
		if !bytes.Equal(x.Bytes(), d) {
			return "accepted, not canonical"
		}
		return "accepted"
	}})
}
