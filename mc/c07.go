package main

import (
	"errors"
	"fmt"
	"io"
	"sync/atomic"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register("C07", "fault_enumeration", runC07)
}

var errInjected = errors.New("injected failure")

// pieceReader delivers the data in the given pieces. eofWithData: the end of data is told together with the last piece
type pieceReader struct {
	data        []byte
	sizes       []int // sizes of the pieces, the last repeats; 0 is a read which returns no data and no error
	i, left     int
	eofWithData bool
	failAt      int // if >0, reading fails when so many bytes have been delivered (counted from 1: failAt-1 bytes)
	done        int
}

func (r *pieceReader) Read(p []byte) (int, error) {
	if r.failAt > 0 && r.done >= r.failAt-1 {
		return 0, errInjected
	}
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(r.data)
	if len(r.sizes) > 0 {
		if r.left == 0 {
			r.left = r.sizes[r.i]
			if r.i < len(r.sizes)-1 {
				r.i++
			}
			if r.left == 0 {
				return 0, nil
			}
		}
		if n > r.left {
			n = r.left
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if r.failAt > 0 && r.done+n > r.failAt-1 {
		n = r.failAt - 1 - r.done
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	r.done += n
	if r.left > 0 {
		r.left -= n
	}
	if r.eofWithData && len(r.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// failWriter fails at the n-th call (from 0)
type failWriter struct {
	calls, failAt int
	data          []byte
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.calls == w.failAt {
		w.calls++
		return 0, errInjected
	}
	w.calls++
	w.data = append(w.data, p...)
	return len(p), nil
}

// codec describes one kind of serialized object
type codec struct {
	name  string
	write func(w io.Writer) error             // writes the object
	dec   func(data []byte) (string, error)   // decodes from bytes which must be consumed completely (may be nil)
	read  func(r io.Reader) (string, error)   // decodes from the reader, returns description of the object
	want  string                              // description of the original object
	size  interface{ Write(io.Writer) error } // for Size
}

func clip(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e {
			if len(s) > 150 {
				return fmt.Sprintf("%x...", s[:150])
			}
			return fmt.Sprintf("%x", s)
		}
	}
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// checkCodec enumerates: round trip, size, every truncation, extensions, every split into two reads, byte by byte,
// every reading failure point, every failing write. Returns number of decodings
func checkCodec(k codec, dense bool) int64 {
	n := int64(0)
	w := &failWriter{failAt: -1}
	if err := k.write(w); err != nil {
		failf("%s: can't write: %v", k.name, err)
	}
	data := w.data
	calls := w.calls
	if k.size != nil {
		sz, err := trie.Size(k.size)
		if err != nil || sz != len(data) || trie.MustSize(k.size) != len(data) {
			failf("%s: reported size is %d (%v), serialized to %d bytes", k.name, sz, err, len(data))
		}
	}
	rd := func(what string, r io.Reader) {
		n++
		got, err := k.read(r)
		if err != nil {
			failf("%s: %s: can't read %x: %v", k.name, what, short(data), err)
		}
		if got != k.want {
			failf("%s: %s: read %s, expected %s", k.name, what, clip(got), clip(k.want))
		}
	}
	rej := func(what string, d []byte) {
		n++
		if k.dec != nil {
			if got, err := k.dec(d); err == nil {
				failf("%s: %s is decoded as %s; original %s", k.name, what, clip(got), clip(k.want))
			}
		}
	}
	if k.dec != nil {
		n++
		got, err := k.dec(append([]byte{}, data...))
		if err != nil {
			failf("%s: can't decode %x: %v", k.name, short(data), err)
		}
		if got != k.want {
			failf("%s: decoded as %s, expected %s", k.name, clip(got), clip(k.want))
		}
	}
	step := 1
	if !dense && len(data) > 300 || len(data) > 20000 {
		step = len(data)/150 + 1
	}
	idx := func(f func(i int)) { // all positions, or a regular subset with dense ends
		for i := 0; i < len(data); i++ {
			if i < 90 || i > len(data)-70 || i%step == 0 {
				f(i)
			}
		}
	}
	idx(func(i int) {
		rej(fmt.Sprintf("prefix of %d out of %d bytes", i, len(data)), data[:i])
		n++
		if got, err := k.read(&pieceReader{data: data[:i]}); err == nil {
			failf("%s: prefix of %d out of %d bytes is read as %s", k.name, i, len(data), clip(got))
		}
	})
	for _, x := range [][]byte{{0}, {1}, {0xff}, {0, 0}, data, data[:(len(data)+1)/2]} {
		if len(x) > 0 {
			rej(fmt.Sprintf("data with %x appended", short(x)), append(append([]byte{}, data...), x...))
		}
	}
	rd("in one piece", &pieceReader{data: data})
	rd("byte by byte", &pieceReader{data: data, sizes: []int{1}})
	rd("byte by byte, EOF with the last byte", &pieceReader{data: data, sizes: []int{1}, eofWithData: true})
	rd("in pieces of 3", &pieceReader{data: data, sizes: []int{3}})
	rd("EOF with the data", &pieceReader{data: data, eofWithData: true})
	rd("empty reads", &pieceReader{data: data, sizes: []int{1, 0, 2, 0, 0, 1, 7}})
	idx(func(i int) {
		if i > 0 {
			rd(fmt.Sprintf("in two pieces split at %d", i), &pieceReader{data: data, sizes: []int{i, len(data)}})
		}
		n++
		if got, err := k.read(&pieceReader{data: data, failAt: i + 1}); err == nil {
			failf("%s: failure of the reader after %d bytes is not reported, read %s", k.name, i, clip(got))
		}
	})
	for i := 0; i < calls; i++ {
		if calls > 600 && i%((calls/300)+1) != 0 {
			continue
		}
		n++
		if err := k.write(&failWriter{failAt: i}); err == nil {
			failf("%s: failure of the write #%d is not reported", k.name, i)
		}
	}
	return n
}

func short(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

// ---- blake2b proofs

// proofFull is an unambiguous description of the proof. It is not hex encoded, for speed
func proofFull(p *trie_blake2b.Proof) string {
	var b []byte
	num := func(i int) { b = append(b, byte(i), byte(i>>8), byte(i>>16)) }
	str := func(x []byte) { num(len(x)); b = append(b, x...) }
	num(int(p.PathArity))
	num(int(p.HashSize))
	str(p.Key)
	num(len(p.Path))
	for _, e := range p.Path {
		str(e.PathFragment)
		num(e.ChildIndex)
		if e.Terminal == nil {
			b = append(b, 'N')
		} else {
			b = append(b, 'T')
			str(e.Terminal)
		}
		num(len(e.Children))
		for i, left := 0, len(e.Children); i < 256 && left > 0; i++ {
			if ch, ok := e.Children[byte(i)]; ok {
				num(i)
				str(ch)
				left--
			}
		}
	}
	return string(b)
}

func codecProof(p *trie_blake2b.Proof) codec {
	return codec{name: "proof", write: p.Write, size: p, want: proofFull(p),
		dec: func(d []byte) (string, error) {
			x, err := trie_blake2b.ProofFromBytes(d)
			if err != nil {
				return "", err
			}
			return proofFull(x), nil
		},
		read: func(r io.Reader) (string, error) {
			x := &trie_blake2b.Proof{}
			if err := x.Read(r); err != nil {
				return "", err
			}
			return proofFull(x), nil
		}}
}

func proofClaims(p *trie_blake2b.Proof, root []byte, vals []string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s += fmt.Sprintf(" panic %v", r)
		}
	}()
	s = fmt.Sprint(trie_blake2b_verify.Validate(p, root) == nil)
	s += fmt.Sprint(" ", trie_blake2b_verify.IsProofOfAbsence(p))
	for _, v := range vals {
		s += fmt.Sprint(" ", trie_blake2b_verify.ValidateWithValue(p, root, []byte(v)) == nil)
	}
	k, t := trie_blake2b_verify.MustKeyWithTerminal(p)
	return s + fmt.Sprintf(" %x %x %x", k, t, trie_blake2b_verify.CommitmentToTheTerminalNode(p))
}

func (c *Ctx) codecStates(cfg Cfg, name string, keys []string) {
	s, end := c.Begin(fmt.Sprintf("proofs of states %s %s", name, cfg),
		fmt.Sprintf("all %d contents x all probe keys x (every truncation, extensions, every split, every read and write failure)", 1<<uint(len(keys))))
	defer end()
	probes := probesFor(keys)
	hs := int(cfg.HS)
	vals := []string{"1", pat(hs, 5), pat(hs+1, 5), "\x00", pat(3, 9)}
	c.Par(1<<uint(len(keys)), func(sub int) {
		content := map[string]string{}
		for i, k := range keys {
			if sub&(1<<uint(i)) != 0 {
				content[k] = vals[i%len(vals)]
			}
		}
		fs := buildForgeState(cfg, content, probes)
		for i, p := range fs.proofs {
			p := p
			if c.Done() || !c.Case(s, mapStr(content)+" proof of "+q(fs.kinds[i]), func() {
				atomic.AddInt64(&s.Transitions, checkCodec(codecProof(p), false))
				x, err := trie_blake2b.ProofFromBytes(p.Bytes())
				if err != nil {
					failf("%v", err)
				}
				if a, b := proofClaims(p, fs.tr.root, vals), proofClaims(x, fs.tr.root, vals); a != b {
					failf("claims of the proof: %s, of the decoded proof: %s", a, b)
				} else {
					c.outcomeFast(a[:10])
				}
			}) {
				return
			}
		}
	})
}

// synthetic proofs: every single child index, pairs, every terminal and fragment length, every last index
func (c *Ctx) codecSynthetic(cfg Cfg) {
	s, end := c.Begin("synthetic proofs "+cfg.String(), "every child index alone and next to its neighbour, every number of children, every terminal length, every child index field, fragment, key and path lengths")
	defer end()
	hs := int(cfg.HS)
	sym := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte((i*5 + 3)) & byte(cfg.Arity)
		}
		return b
	}
	comm := func(i int) []byte { return []byte(pat(hs, byte(i))) }
	type el = trie_blake2b.ProofElement
	var ps []*trie_blake2b.Proof
	var ids []string
	add := func(id string, key []byte, els ...*el) {
		ps = append(ps, &trie_blake2b.Proof{PathArity: cfg.Arity, HashSize: cfg.HS, Key: key, Path: els})
		ids = append(ids, id)
	}
	nc := cfg.Arity.NumChildren()
	for i := 0; i < nc; i++ {
		add(fmt.Sprintf("child %d", i), sym(3), &el{PathFragment: sym(2), ChildIndex: i, Children: map[byte][]byte{byte(i): comm(i)}})
		j := (i + 1) % nc
		add(fmt.Sprintf("children %d,%d", i, j), sym(3), &el{PathFragment: sym(1), ChildIndex: nc, Terminal: []byte("t"), Children: map[byte][]byte{byte(i): comm(i), byte(j): comm(j + 7)}})
		ch := map[byte][]byte{}
		for x := 0; x <= i; x++ {
			ch[byte(x)] = comm(x)
		}
		if i%7 == 0 || i > nc-2 {
			add(fmt.Sprintf("%d children", i+1), nil, &el{ChildIndex: nc + 1, Children: ch}, &el{ChildIndex: i, Children: map[byte][]byte{}})
		}
	}
	for i := 0; i <= 255; i++ {
		var t []byte
		if i > 0 {
			t = []byte(pat(i-1, 3))
		}
		add(fmt.Sprintf("terminal length %d", i-1), sym(1), &el{ChildIndex: nc, Terminal: t, Children: map[byte][]byte{}})
		add(fmt.Sprintf("terminal length %d and children", i-1), sym(1), &el{ChildIndex: nc, Terminal: t, Children: map[byte][]byte{0: comm(0), 1: comm(1)}})
	}
	for _, i := range append(rng(0, 40, 1), 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, c.pick(513, 1000), c.pick(600, 4000)) {
		add(fmt.Sprintf("fragment length %d", i), sym(3), &el{PathFragment: sym(i), ChildIndex: nc, Children: map[byte][]byte{}})
		add(fmt.Sprintf("key length %d", i), sym(i), &el{PathFragment: sym(1), ChildIndex: nc, Children: map[byte][]byte{}})
		var els []*el
		for j := 0; j < i; j++ {
			els = append(els, &el{PathFragment: sym(j % 3), ChildIndex: j % (nc + 2), Children: map[byte][]byte{byte(j % nc): comm(j)}})
		}
		add(fmt.Sprintf("path length %d", i), sym(3), els...)
	}
	for i := 0; i < 300; i++ {
		add(fmt.Sprintf("index field %d", i), sym(2), &el{PathFragment: sym(2), ChildIndex: i, Children: map[byte][]byte{}})
	}
	max := map[trie.PathArity]int{a256: 65535, a16: 65534 * 2, a2: 65534 * 8}[cfg.Arity]
	add("longest fragment and key", sym(max), &el{PathFragment: sym(max), ChildIndex: 1, Children: map[byte][]byte{}})
	c.Par(len(ps), func(i int) {
		c.Case(s, ids[i], func() { atomic.AddInt64(&s.Transitions, checkCodec(codecProof(ps[i]), !c.quick())) })
	})
}

// longPaths: paths around the largest length the format can hold: the same path is decoded, or nothing is written
func (c *Ctx) longPaths() {
	lens := []int{32767, 32768, 65534, 65535, 65536, 65537, 65792, 131072}
	s, end := c.Begin("long paths", fmt.Sprintf("paths of %v elements, blake2b and KZG", lens))
	defer end()
	pt := trie_kzg_bn256.Model.Suite.G1().Point().Base()
	try := func(l int, write func(w io.Writer) error, dec func(d []byte) string, want string) {
		w := &failWriter{failAt: -1}
		if err := write(w); err != nil {
			if len(w.data) > 0 || l <= 65535 {
				failf("%d elements: error %v after %d bytes are written", l, err, len(w.data))
			}
			c.outcomeFast("too long path is refused")
			return
		}
		if got := dec(w.data); got != want {
			failf("%d elements: decoded %s, expected %s", l, clip(got), clip(want))
		}
		c.outcomeFast("path is decoded")
	}
	c.Par(len(lens), func(i int) {
		l := lens[i]
		for _, cfg := range allB2B() {
			cfg := cfg
			c.Case(s, fmt.Sprintf("%s %d elements", cfg, l), func() {
				p := &trie_blake2b.Proof{PathArity: cfg.Arity, HashSize: cfg.HS, Key: []byte{1}}
				for j := 0; j < l; j++ {
					p.Path = append(p.Path, &trie_blake2b.ProofElement{PathFragment: []byte{byte(j) & byte(cfg.Arity)}, ChildIndex: j & int(cfg.Arity), Children: map[byte][]byte{}})
				}
				k := codecProof(p)
				try(l, p.Write, func(d []byte) string {
					r, err := k.dec(d)
					if err != nil {
						return err.Error()
					}
					return r
				}, k.want)
				atomic.AddInt64(&s.Transitions, 1)
			})
		}
		c.Case(s, fmt.Sprintf("KZG %d elements", l), func() {
			p := &trie_kzg_bn256.ProofOfInclusion{Key: []byte("k"), Terminal: trie_kzg_bn256.Model.Suite.G1().Scalar().One()}
			for j := 0; j < l; j++ {
				p.Path = append(p.Path, &trie_kzg_bn256.ProofElement{C: pt, VectorIndex: uint16(j), Proof: pt})
			}
			n := func(p *trie_kzg_bn256.ProofOfInclusion) string {
				x := 0
				for j, e := range p.Path {
					if int(e.VectorIndex) == j&0xFFFF {
						x++
					}
				}
				return fmt.Sprintf("%s %d of %d", p.Key, x, len(p.Path))
			}
			try(l, p.Write, func(d []byte) string {
				r, err := trie_kzg_bn256.ProofOfInclusionFromBytes(d)
				if err != nil {
					return err.Error()
				}
				return n(r)
			}, n(p))
			atomic.AddInt64(&s.Transitions, 1)
		})
	})
}

// ---- commitments

func (c *Ctx) codecCommitments() {
	s, end := c.Begin("commitments", "all vector commitments and terminals (every length, stored or not) of all models x truncations, extensions, splits, failures")
	defer end()
	serCodec := func(name string, o trie.Serializable, fresh func() trie.Serializable, eq func(a, b trie.Serializable) bool) codec {
		desc := func(x trie.Serializable) string {
			if eq(o, x) != (string(x.Bytes()) == string(o.Bytes())) && x.String() == o.String() {
				return "equality and bytes do not agree"
			}
			return fmt.Sprintf("%x/%s/%v", x.Bytes(), x.String(), eq(o, x))
		}
		return codec{name: name, write: o.Write, size: o, want: fmt.Sprintf("%x/%s/%v", o.Bytes(), o.String(), true),
			read: func(r io.Reader) (string, error) {
				x := fresh()
				if err := x.Read(r); err != nil {
					return "", err
				}
				return desc(x), nil
			},
			dec: func(d []byte) (string, error) {
				x := fresh()
				if err := readFrom(x, d); err != nil {
					return "", err
				}
				return desc(x), nil
			}}
	}
	var ks []codec
	var names []string
	cfgs := append(allB2B(), cfgKZG)
	for _, cfg := range allB2B() {
		for _, t := range []int{1, 19, 20, 21, 31, 32, 33, 50} {
			cfgs = append(cfgs, cfg.thr(t))
		}
	}
	for _, cfg := range cfgs {
		m := cfg.NewModel()
		for n := 1; n <= 70; n++ {
			if cfg.Kind == "kzg" && n%10 != 1 {
				continue
			}
			for salt := byte(0); salt < 3; salt++ {
				d := []byte(pat(n, salt))
				if salt == 2 {
					d = make([]byte, n)
				}
				t := m.CommitToData(d)
				ks = append(ks, serCodec("terminal commitment", t, func() trie.Serializable { return m.NewTerminalCommitment() }, m.EqualCommitments))
				names = append(names, fmt.Sprintf("%s terminal of %d bytes #%d", cfg, n, salt))
				if cfg.Kind == "kzg" && salt > 0 || n > 20 {
					continue
				}
				v := m.CalcNodeCommitment(&trie.NodeData{PathFragment: d, Terminal: t, ChildCommitments: map[byte]trie.VCommitment{}})
				ks = append(ks, serCodec("vector commitment", v, func() trie.Serializable { return m.NewVectorCommitment() }, m.EqualCommitments))
				names = append(names, fmt.Sprintf("%s vector #%d/%d", cfg, n, salt))
				tr := newTrie(cfg, m, NewStore(), NewStore())
				k := serCodec("vector commitment from bytes", v, func() trie.Serializable { return m.NewVectorCommitment() }, m.EqualCommitments)
				k.dec = func(d []byte) (string, error) {
					x, err := tr.VectorCommitmentFromBytes(d)
					if err != nil {
						return "", err
					}
					return fmt.Sprintf("%x/%s/%v", x.Bytes(), x.String(), m.EqualCommitments(x, v)), nil
				}
				ks = append(ks, k)
				names = append(names, fmt.Sprintf("%s vector from bytes #%d/%d", cfg, n, salt))
			}
		}
	}
	c.Par(len(ks), func(i int) {
		c.Case(s, names[i], func() { atomic.AddInt64(&s.Transitions, checkCodec(ks[i], true)) })
	})
}

// ---- KZG proofs

func codecKZG(p *trie_kzg_bn256.ProofOfInclusion) codec {
	desc := func(p *trie_kzg_bn256.ProofOfInclusion) string {
		s := fmt.Sprintf("key=%x term=%s", p.Key, p.Terminal)
		for _, e := range p.Path {
			s += fmt.Sprintf("[%s %d %s]", e.C, e.VectorIndex, e.Proof)
		}
		return s
	}
	return codec{name: "KZG proof", write: p.Write, size: p, want: desc(p),
		read: func(r io.Reader) (string, error) {
			x := &trie_kzg_bn256.ProofOfInclusion{}
			if err := x.Read(r); err != nil {
				return "", err
			}
			return desc(x), nil
		},
		dec: func(d []byte) (string, error) {
			x, err := trie_kzg_bn256.ProofOfInclusionFromBytes(d)
			if err != nil {
				return "", err
			}
			return desc(x), nil
		}}
}

func (c *Ctx) codecKZGProofs(contents []map[string]string) {
	s, end := c.Begin("KZG proofs of states", fmt.Sprintf("%d contents x all keys, and 320 indices up to 65535 in the proof elements x truncations, extensions, splits, failures", len(contents)))
	defer end()
	type job struct {
		content map[string]string
		key     string
	}
	var jobs []job
	for _, ct := range contents {
		for _, k := range sortedKeys(ct) {
			jobs = append(jobs, job{ct, k})
		}
	}
	c.Par(len(jobs), func(i int) {
		j := jobs[i]
		c.Case(s, mapStr(j.content)+" proof of "+q(j.key), func() {
			m := trie_kzg_bn256.Model
			rd := trie.NewTrieReader(m, &Store{m: expectFor(cfgKZG, j.content).store}, nil)
			p, ok := m.ProofOfInclusion([]byte(j.key), rd)
			if !ok {
				failf("no proof")
			}
			n := checkCodec(codecKZG(p), !c.quick())
			x, err := trie_kzg_bn256.ProofOfInclusionFromBytes(p.Bytes())
			if err != nil {
				failf("%v", err)
			}
			root := trie.RootCommitment(rd)
			if err := x.Validate(root, []byte(j.content[j.key])); err != nil {
				failf("decoded proof is not valid: %v", err)
			}
			if i%4 == 0 {
				for t := 0; t < 320; t++ {
					idx := t
					if t >= 300 {
						idx = []int{511, 512, 513, 768, 1023, 1024, 2048, 4096, 8192, 16384, 32767, 32768, 32769, 65279, 65280, 65533, 65534, 65535, 0x0102, 0xFF00}[t-300]
					}
					y := *p
					y.Key = []byte(pat(t, 2))
					y.Path = nil
					for _, e := range p.Path {
						z := *e
						z.VectorIndex = uint16(idx)
						y.Path = append(y.Path, &z)
					}
					k := codecKZG(&y)
					got, err := k.dec(y.Bytes())
					n++
					if err != nil || got != k.want {
						failf("vector index %d: decoded %s (%v), expected %s", idx, clip(got), err, clip(k.want))
					}
				}
			}
			atomic.AddInt64(&s.Transitions, n)
		})
	})
}

func runC07(c *Ctx) {
	c.longPaths()
	c.codecCommitments()
	for _, cfg := range allB2B() {
		c.codecSynthetic(cfg)
	}
	for _, un := range sortedNames(universes6) {
		for i, cfg := range allB2B() {
			keys := universes6[un]
			if c.quick() && i%2 == 0 {
				keys = keys[:4]
			}
			c.codecStates(cfg, un, keys)
		}
	}
	var kz []map[string]string
	for sub := 1; sub < 16; sub++ {
		ct := map[string]string{}
		for i, k := range []string{"", "a", "ab\x00", "\x00\xff"} {
			if sub&(1<<uint(i)) != 0 {
				ct[k] = pat(1+i*20, byte(i))
			}
		}
		kz = append(kz, ct)
	}
	c.codecKZGProofs(kz)
}
