package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register("C06", "fault_enumeration", runC06)
}

// truth is what a state says about unpacked keys
type truth struct {
	cfg   Cfg
	root  []byte
	terms map[string]string // unpacked key -> terminal commitment
	vals  map[string]string // unpacked key -> value
	desc  string
}

func truthOf(cfg Cfg, content map[string]string) *truth {
	t := &truth{cfg: cfg, root: expectFor(cfg, content).root, terms: map[string]string{}, vals: map[string]string{}, desc: mapStr(content)}
	for k, v := range content {
		u := unpackRef(k, cfg.Arity)
		if cfg.KeyOpt && k == v {
			v = u
		}
		t.terms[u] = string(commitRef(v, cfg.HS))
		t.vals[u] = v
	}
	return t
}

// judge validates the proof against the state. If the proof is accepted, its claim must be true.
// Returns what happened
func (t *truth) judge(p *trie_blake2b.Proof, what func() string, vals []string) string {
	err := trie_blake2b_verify.Validate(p, t.root)
	if err != nil {
		return "rejected"
	}
	k, term := trie_blake2b_verify.MustKeyWithTerminal(p)
	abs := trie_blake2b_verify.IsProofOfAbsence(p)
	if abs != (term == nil) {
		failf("%s: inconsistent claims", what())
	}
	key := string(k)
	if len(p.Path) == 0 {
		key = string(p.Key)
	}
	real, present := t.terms[key]
	switch {
	case term == nil && present:
		failf("state %s: accepted proof of absence of the present key %x: %s", t.desc, key, what())
	case term != nil && !present:
		failf("state %s: accepted proof of inclusion of the absent key %x: %s", t.desc, key, what())
	case term != nil && string(term) != real:
		failf("state %s: accepted proof of the terminal %x at the key %x, the state has %x: %s", t.desc, term, key, real, what())
	}
	for _, v := range vals {
		if trie_blake2b_verify.ValidateWithValue(p, t.root, []byte(v)) == nil && (!present || t.vals[key] != v) {
			failf("state %s: proof of the key %x accepted with the value %s: %s", t.desc, key, q(v), what())
		}
	}
	if present {
		return "accepted: true inclusion"
	}
	return "accepted: true absence"
}

// judgeMem is for proofs which can't come from bytes: a panic of the validation is as good as an error. If it is
// accepted, it must have a claim
func (t *truth) judgeMem(p *trie_blake2b.Proof, what func() string, vals []string) string {
	accepted := false
	func() {
		defer func() { _ = recover() }()
		accepted = trie_blake2b_verify.Validate(p, t.root) == nil
	}()
	if !accepted {
		return "rejected"
	}
	return t.judge(p, what, vals)
}

func cloneProof(p *trie_blake2b.Proof) *trie_blake2b.Proof {
	r := &trie_blake2b.Proof{PathArity: p.PathArity, HashSize: p.HashSize, Key: append([]byte{}, p.Key...)}
	for _, e := range p.Path {
		r.Path = append(r.Path, cloneElem(e))
	}
	return r
}

func cloneElem(e *trie_blake2b.ProofElement) *trie_blake2b.ProofElement {
	r := &trie_blake2b.ProofElement{PathFragment: append([]byte{}, e.PathFragment...), ChildIndex: e.ChildIndex, Children: map[byte][]byte{}}
	if e.Terminal != nil {
		r.Terminal = append([]byte{}, e.Terminal...)
	}
	for i, c := range e.Children {
		r.Children[i] = append([]byte{}, c...)
	}
	return r
}

func proofDesc(p *trie_blake2b.Proof) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "proof(key %x", p.Key)
	for _, e := range p.Path {
		fmt.Fprintf(&sb, " [pf %x idx %d term %s", e.PathFragment, e.ChildIndex, hx(e.Terminal))
		for i := 0; i < 256; i++ {
			if c, ok := e.Children[byte(i)]; ok {
				if len(c) > 3 {
					c = c[:3]
				}
				fmt.Fprintf(&sb, " %d:%x", i, c)
			}
		}
		sb.WriteString("]")
	}
	sb.WriteString(")")
	return sb.String()
}

func stripZeros(b []byte) []byte { return bytes.TrimRight(b, "\x00") }

// pool of material for forgeries, taken from several states
type forgePool struct {
	keys     [][]byte // unpacked
	frags    [][]byte
	terms    [][]byte
	children [][]byte
	elems    []*trie_blake2b.ProofElement
	idx      []int
}

// elementMutants calls f with every single alteration of the element. Alterations which leave the hashed data
// unchanged because of zero padding of the commitments (known finding) are left out
func elementMutants(e *trie_blake2b.ProofElement, pool *forgePool, arity trie.PathArity, f func(m *trie_blake2b.ProofElement, what string)) {
	mut := func(what string, g func(m *trie_blake2b.ProofElement)) {
		m := cloneElem(e)
		g(m)
		if !bytes.Equal(m.PathFragment, e.PathFragment) && bytes.Equal(stripZeros(m.PathFragment), stripZeros(e.PathFragment)) {
			return
		}
		f(m, what)
	}
	for _, i := range pool.idx {
		if i == e.ChildIndex {
			continue
		}
		i := i
		mut(fmt.Sprintf("index %d", i), func(m *trie_blake2b.ProofElement) { m.ChildIndex = i })
		// the index is moved and the commitment at the new index is removed or moved to the old one
		if arity.IsChildIndex(i) && e.Children[byte(i)] != nil {
			mut(fmt.Sprintf("index %d, commitment removed", i), func(m *trie_blake2b.ProofElement) { m.ChildIndex = i; delete(m.Children, byte(i)) })
			if arity.IsChildIndex(e.ChildIndex) {
				mut(fmt.Sprintf("index %d, commitment moved", i), func(m *trie_blake2b.ProofElement) {
					m.ChildIndex = i
					m.Children[byte(e.ChildIndex)] = m.Children[byte(i)]
					delete(m.Children, byte(i))
				})
			}
		}
	}
	pf := e.PathFragment
	frags := append([][]byte{}, pool.frags...)
	if len(pf) > 0 {
		frags = append(frags, pf[:len(pf)-1], pf[1:])
		x := append([]byte{}, pf...)
		x[len(x)-1] ^= 1
		frags = append(frags, x)
	}
	frags = append(frags, append(append([]byte{}, pf...), 1))
	for _, pf2 := range frags {
		if bytes.Equal(pf, pf2) {
			continue
		}
		pf2 := pf2
		mut(fmt.Sprintf("fragment %x", pf2), func(m *trie_blake2b.ProofElement) { m.PathFragment = append([]byte{}, pf2...) })
		for _, i := range pool.idx[:3] {
			i := i
			mut(fmt.Sprintf("fragment %x index %d", pf2, i), func(m *trie_blake2b.ProofElement) {
				m.PathFragment = append([]byte{}, pf2...)
				m.ChildIndex = i
			})
		}
	}
	for _, t := range append([][]byte{nil, {}}, pool.terms...) {
		if bytes.Equal(t, e.Terminal) && (t == nil) == (e.Terminal == nil) {
			continue
		}
		t := t
		mut(fmt.Sprintf("terminal %s", hx(t)), func(m *trie_blake2b.ProofElement) { m.Terminal = t })
		mut(fmt.Sprintf("terminal %s index terminal", hx(t)), func(m *trie_blake2b.ProofElement) {
			m.Terminal = t
			m.ChildIndex = arity.TerminalCommitmentIndex()
		})
	}
	for i := range e.Children {
		i := i
		mut(fmt.Sprintf("child %d dropped", i), func(m *trie_blake2b.ProofElement) { delete(m.Children, i) })
		mut(fmt.Sprintf("child %d empty", i), func(m *trie_blake2b.ProofElement) { m.Children[i] = []byte{} })
		mut(fmt.Sprintf("child %d nil", i), func(m *trie_blake2b.ProofElement) { m.Children[i] = nil })
		mut(fmt.Sprintf("child %d dropped, index there", i), func(m *trie_blake2b.ProofElement) { delete(m.Children, i); m.ChildIndex = int(i) })
		mut(fmt.Sprintf("child %d nil, index there", i), func(m *trie_blake2b.ProofElement) { m.Children[i] = nil; m.ChildIndex = int(i) })
	}
	for _, i := range pool.idx {
		if !arity.IsChildIndex(i) {
			continue
		}
		for n, ch := range pool.children {
			if n > 4 {
				break
			}
			i, ch := i, ch
			if !bytes.Equal(e.Children[byte(i)], ch) {
				mut(fmt.Sprintf("child %d set", i), func(m *trie_blake2b.ProofElement) { m.Children[byte(i)] = ch })
			}
		}
	}
}

type forgeState struct {
	content map[string]string
	tr      *truth
	proofs  []*trie_blake2b.Proof
	kinds   []string
}

func buildForgeState(cfg Cfg, content map[string]string, probes []string) *forgeState {
	m := cfg.NewModel().(*trie_blake2b.CommitmentModel)
	st := &Store{m: expectFor(cfg, content).store}
	vs := &Store{m: content}
	var rv trie.KVReader
	if cfg.Thr > 0 {
		rv = vs
	}
	rd := trie.NewTrieReader(m, st, rv)
	fs := &forgeState{content: content, tr: truthOf(cfg, content)}
	for _, k := range probes {
		fs.proofs = append(fs.proofs, m.Proof([]byte(k), rd))
		fs.kinds = append(fs.kinds, k)
	}
	// the verifier may also accept absence shown by the empty slot of the next symbol of the key
	for i, p := range fs.proofs[:len(probes):len(probes)] {
		if x := slotProof(p); x != nil {
			fs.proofs = append(fs.proofs, x)
			fs.kinds = append(fs.kinds, probes[i]+" (slot)")
		}
	}
	return fs
}

// slotProof turns a proof of absence into one which names the empty slot of the last node, if it ends that way
func slotProof(p *trie_blake2b.Proof) *trie_blake2b.Proof {
	if len(p.Path) == 0 || p.Path[len(p.Path)-1].ChildIndex != p.PathArity.PathFragmentCommitmentIndex() {
		return nil
	}
	pos := 0
	for i, e := range p.Path {
		if i < len(p.Path)-1 {
			pos += len(e.PathFragment) + 1
			continue
		}
		if !bytes.HasPrefix(p.Key[pos:], e.PathFragment) || pos+len(e.PathFragment) == len(p.Key) {
			return nil
		}
		x := cloneProof(p)
		x.Path[i].ChildIndex = int(p.Key[pos+len(e.PathFragment)])
		return x
	}
	return nil
}

// forgeries: for every target state, every proof of every state is altered in every way of the pool
func (c *Ctx) forgeries(cfg Cfg, name string, keys []string, probes []string, depth int) {
	s, end := c.Begin(fmt.Sprintf("forgeries %s %s", name, cfg),
		fmt.Sprintf("all %d contents x proofs of %d keys x (relabel to every key, every single alteration of every element and all pairs of a relabelling with an alteration, cut/extend/splice)", 1<<uint(len(keys)), len(probes)))
	defer end()
	vals := []string{"1", "x22", pat(int(cfg.HS)+5, 2)}
	var states []*forgeState
	for sub := 0; sub < 1<<uint(len(keys)); sub++ {
		content := map[string]string{}
		for i, k := range keys {
			if sub&(1<<uint(i)) != 0 {
				content[k] = vals[i%len(vals)]
			}
		}
		states = append(states, buildForgeState(cfg, content, probes))
	}
	var ukeys [][]byte
	for _, k := range probes {
		ukeys = append(ukeys, []byte(unpackRef(k, cfg.Arity)))
	}
	// keys which are not a whole number of bytes
	for _, k := range ukeys {
		if len(k) > 1 && cfg.Arity != a256 {
			ukeys = append(ukeys, k[:len(k)-1])
		}
	}
	c.Par(len(states), func(si int) {
		st := states[si]
		pool := &forgePool{keys: ukeys}
		seenF, seenT, seenC, seenI := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[int]bool{}
		add := func(m map[string]bool, l *[][]byte, b []byte) {
			if !m[string(b)] {
				m[string(b)] = true
				*l = append(*l, append([]byte{}, b...))
			}
		}
		addI := func(i int) {
			if !seenI[i] {
				seenI[i] = true
				pool.idx = append(pool.idx, i)
			}
		}
		addI(cfg.Arity.PathFragmentCommitmentIndex())
		addI(cfg.Arity.TerminalCommitmentIndex())
		addI(int(cfg.Arity) + 3)
		addI(0)
		addI(1)
		for _, v := range vals {
			add(seenT, &pool.terms, commitRef(v, cfg.HS))
		}
		add(seenF, &pool.frags, nil)
		for _, p := range st.proofs {
			for _, e := range p.Path {
				add(seenF, &pool.frags, e.PathFragment)
				for i, ch := range e.Children {
					add(seenC, &pool.children, ch)
					addI(int(i))
				}
				addI(e.ChildIndex)
			}
			for _, sym := range p.Key {
				if len(pool.idx) < 12 {
					addI(int(sym))
				}
			}
		}
		if len(pool.frags) > 6 {
			pool.frags = pool.frags[:6]
		}
		other := []*forgeState{states[(si+1)%len(states)], states[(si^1)%len(states)], states[(si*3+5)%len(states)], states[len(states)-1]}
		n := int64(0)
		t := st.tr
		rec := func(o string) { n++; c.outcomeFast(o) }
		// proofs of this and other states: relabelled
		for _, src := range append([]*forgeState{st}, states...) {
			if !c.Case(s, fmt.Sprintf("target %s, relabelled proofs of %s", t.desc, src.tr.desc), func() {
				for pi, p := range src.proofs {
					base := p
					for ki, k := range pool.keys {
						if src != st && ki%4 != pi%4 && ki != pi {
							continue
						}
						m := *base
						m.Key = k
						rec(t.judge(&m, func() string { return "relabelled: " + proofDesc(&m) }, vals))
					}
				}
			}) {
				return
			}
		}
		for pi, p := range st.proofs {
			if c.Done() {
				return
			}
			if !c.Case(s, fmt.Sprintf("target %s, altered proofs of %s", t.desc, q(st.kinds[pi])), func() {
				// every alteration of every element, with the own key and every other key
				for ei := range p.Path {
					elementMutants(p.Path[ei], pool, cfg.Arity, func(e *trie_blake2b.ProofElement, what string) {
						m := &trie_blake2b.Proof{PathArity: p.PathArity, HashSize: p.HashSize, Key: p.Key}
						m.Path = append(append(append(m.Path, p.Path[:ei]...), e), p.Path[ei+1:]...)
						d := func() string {
							return fmt.Sprintf("proof of %s altered at element %d: %s: %s", q(st.kinds[pi]), ei, what, proofDesc(m))
						}
						rec(t.judgeMem(m, d, vals))
						if depth > 1 {
							for _, k := range pool.keys {
								m.Key = k
								rec(t.judgeMem(m, d, nil))
							}
						}
					})
				}
				// structure
				try := func(what string, path []*trie_blake2b.ProofElement) {
					for _, k := range pool.keys {
						m := &trie_blake2b.Proof{PathArity: p.PathArity, HashSize: p.HashSize, Key: k, Path: path}
						rec(t.judgeMem(m, func() string { return what + " " + proofDesc(m) }, nil))
						if len(path) > 0 {
							for _, i := range pool.idx {
								e := cloneElem(path[len(path)-1])
								e.ChildIndex = i
								m2 := &trie_blake2b.Proof{PathArity: p.PathArity, HashSize: p.HashSize, Key: k}
								m2.Path = append(append(m2.Path, path[:len(path)-1]...), e)
								rec(t.judgeMem(m2, func() string { return what + ", last index altered " + proofDesc(m2) }, nil))
							}
						}
					}
				}
				for i := 0; i < len(p.Path); i++ {
					try("cut", p.Path[:i])
					try("first elements dropped", p.Path[i:])
					try("element repeated", append(append(append([]*trie_blake2b.ProofElement{}, p.Path[:i+1]...), p.Path[i]), p.Path[i+1:]...))
					try("element left out", append(append([]*trie_blake2b.ProofElement{}, p.Path[:i]...), p.Path[i+1:]...))
				}
				for _, src := range append(other, st) {
					for _, p2 := range src.proofs {
						for i := 0; i <= len(p.Path); i++ {
							for j := 0; j < len(p2.Path); j++ {
								if i == 0 && j == 0 {
									continue
								}
								path := append(append([]*trie_blake2b.ProofElement{}, p.Path[:i]...), p2.Path[j:]...)
								for _, k := range [][]byte{p.Key, p2.Key} {
									m := &trie_blake2b.Proof{PathArity: p.PathArity, HashSize: p.HashSize, Key: k, Path: path}
									rec(t.judgeMem(m, func() string { return "spliced " + proofDesc(m) }, nil))
								}
							}
						}
					}
				}
				// other parameters of the proof
				for _, a := range allArity {
					for _, h := range []trie_blake2b.HashSize{h160, h256} {
						if a != p.PathArity || h != p.HashSize {
							m := &trie_blake2b.Proof{PathArity: a, HashSize: h, Key: p.Key, Path: p.Path}
							rec(t.judgeMem(m, func() string { return "parameters changed " + proofDesc(m) }, vals))
						}
					}
				}
			}) {
				return
			}
		}
		atomic.AddInt64(&s.Transitions, n)
	})
}

// byteForgeries: every single-byte alteration of the serialized proof
func (c *Ctx) byteForgeries(cfg Cfg, content map[string]string, probes []string, all bool) {
	what := "every byte x every bit flipped, set to 0, incremented"
	if all {
		what = "every byte x every other value"
	}
	s, end := c.Begin(fmt.Sprintf("altered bytes %s %s", mapStr(content), cfg), what)
	defer end()
	st := buildForgeState(cfg, content, probes)
	c.Par(len(st.proofs), func(pi int) {
		data := st.proofs[pi].Bytes()
		c.Case(s, "proof of "+q(st.kinds[pi]), func() {
			n := int64(0)
			for pos := range data {
				try := func(b byte) {
					if b == data[pos] {
						return
					}
					x := append([]byte{}, data...)
					x[pos] = b
					n++
					p, err := trie_blake2b.ProofFromBytes(x)
					if err != nil {
						c.outcomeFast("not decoded")
						return
					}
					if pf := paddingOnly(p, st.proofs[pi]); pf {
						return
					}
					c.outcomeFast(st.tr.judge(p, func() string { return fmt.Sprintf("byte %d set to %02x: %s", pos, b, proofDesc(p)) }, []string{"1", "x22"}))
				}
				if all {
					for b := 0; b < 256; b++ {
						try(byte(b))
					}
				} else {
					for bit := 0; bit < 8; bit++ {
						try(data[pos] ^ 1<<uint(bit))
					}
					try(0)
					try(data[pos] + 1)
				}
			}
			atomic.AddInt64(&s.Transitions, n)
		})
	})
}

// paddingOnly: an element differs from the original only by trailing zeros (known finding)
func paddingOnly(a, b *trie_blake2b.Proof) bool {
	if len(a.Path) != len(b.Path) {
		return false
	}
	for i := range a.Path {
		x, y := a.Path[i], b.Path[i]
		if !bytes.Equal(x.PathFragment, y.PathFragment) && bytes.Equal(stripZeros(x.PathFragment), stripZeros(y.PathFragment)) {
			return true
		}
		if !bytes.Equal(x.Terminal, y.Terminal) && bytes.Equal(stripZeros(x.Terminal), stripZeros(y.Terminal)) {
			return true
		}
	}
	return false
}

// damagedStores: the store holds any mixture of the records of two states (an incomplete write or restore), or lacks
// any subset of its records. Whatever proof is generated over it, if it validates against the root of one of the
// states it must be true in that state
func (c *Ctx) damagedStores(cfg Cfg, name string, keys, probes []string, maxPairs int) {
	s, end := c.Begin(fmt.Sprintf("damaged stores %s %s", name, cfg), "pairs of contents x every subset of the differing records missing or from the other state x every probe key")
	defer end()
	m := cfg.NewModel().(*trie_blake2b.CommitmentModel)
	vals := []string{"1", "x22", pat(int(cfg.HS)+5, 2)}
	var contents []map[string]string
	for sub := 0; sub < 1<<uint(len(keys)); sub++ {
		content := map[string]string{}
		for i, k := range keys {
			if sub&(1<<uint(i)) != 0 {
				content[k] = vals[i%len(vals)]
			}
		}
		contents = append(contents, content)
	}
	type pair struct{ a, b int }
	var pairs []pair
	for a := range contents {
		for b := range contents {
			// b differs from a by one or two keys
			d := 0
			for i := range keys {
				if (a^b)&(1<<uint(i)) != 0 {
					d++
				}
			}
			if d >= 1 && d <= maxPairs || a == b {
				pairs = append(pairs, pair{a, b})
			}
		}
	}
	c.Par(len(pairs), func(i int) {
		A, B := contents[pairs[i].a], contents[pairs[i].b]
		sa, sb := expectFor(cfg, A).store, expectFor(cfg, B).store
		ta, tb := truthOf(cfg, A), truthOf(cfg, B)
		var diff []string
		all := map[string]bool{}
		for k := range sa {
			all[k] = true
		}
		for k := range sb {
			all[k] = true
		}
		for k := range all {
			if sa[k] != sb[k] || pairs[i].a == pairs[i].b {
				diff = append(diff, k)
			}
		}
		if len(diff) > 8 {
			diff = diff[:8]
		}
		c.Case(s, fmt.Sprintf("%s / %s", mapStr(A), mapStr(B)), func() {
			n := int64(0)
			for sub := 0; sub < 1<<uint(len(diff)); sub++ {
				st := cp(sa)
				for j, k := range diff {
					if sub&(1<<uint(j)) != 0 {
						if v, ok := sb[k]; ok && pairs[i].a != pairs[i].b {
							st[k] = v
						} else {
							delete(st, k)
						}
					}
				}
				for _, k := range probes {
					n++
					p := func() (p *trie_blake2b.Proof) {
						defer func() { _ = recover() }() // the trie may refuse a damaged store
						p = m.Proof([]byte(k), trie.NewTrieReader(m, &Store{m: st}, nil))
						return
					}()
					if p == nil {
						c.outcomeFast("not generated")
						continue
					}
					for _, t := range []*truth{ta, tb} {
						c.outcomeFast("damaged: " + t.judge(p, func() string {
							return fmt.Sprintf("generated for the key %s over the store %s: %s", q(k), mapStr(st), proofDesc(p))
						}, vals))
					}
				}
			}
			atomic.AddInt64(&s.Transitions, n)
		})
	})
}

func runC06(c *Ctx) {
	// keys without zero symbols: zero padding of commitments is a known finding
	u4 := map[string][]string{"fork": {"aa", "aab", "aac", "ba"}, "chain": {"a", "ab", "abb", "abbb"}, "split": {"abcd", "abce", "abX", "q"}, "deep": {"aaa", "aab", "abb", "c"}}
	for _, un := range sortedNames(u4) {
		keys := u4[un]
		probes := dedup(append(append([]string{}, keys...), "", "a", "ab", "aabz", "abc", "b", "aaaa", keys[0]+"x", keys[1][:1]+"y"))
		for _, cfg := range []Cfg{b2b(a2, h160), b2b(a16, h256), b2b(a256, h160), b2b(a16, h160), b2b(a256, h256), b2b(a2, h256)} {
			c.forgeries(cfg, un, keys, probes, 2)
		}
		for _, cfg := range []Cfg{b2b(a2, h160), b2b(a16, h256), b2b(a256, h160)} {
			c.damagedStores(cfg, un, keys, probes, 2)
		}
	}
	content := map[string]string{"aa": "1", "aab": "x22", "aac": pat(40, 2), "b": "1"}
	probes := []string{"aa", "aab", "aac", "b", "", "a", "aabx", "ax", "c", "aad"}
	for _, cfg := range allB2B() {
		c.byteForgeries(cfg, content, probes, true)
	}
	c.byteForgeries(b2b(a16, h160).opt(), map[string]string{"ab": "ab", "ac": "1", "b": "b"}, []string{"ab", "ac", "b", "a", "abx"}, true)
	c.knownProofForgeries()
}

// knownProofForgeries replays the listed findings: weaknesses of the commitment format, which can't be repaired
// without changing all commitments
func (c *Ctx) knownProofForgeries() {
	s, end := c.Begin("known findings", "replay of the listed inputs")
	defer end()
	cfg := b2b(a256, h160)
	cases := []struct {
		id      string
		content map[string]string
		key     string
		forge   func(p *trie_blake2b.Proof)
	}{
		{"trailing zero of the terminal dropped", map[string]string{"k": "a\x00", "q": "1"}, "k", func(p *trie_blake2b.Proof) {
			p.Path[len(p.Path)-1].Terminal = []byte("a")
		}},
		{"trailing zero added to the path fragment", map[string]string{"kx": "1", "q": "1"}, "kx", func(p *trie_blake2b.Proof) {
			p.Key = append(p.Key, 0)
			e := p.Path[len(p.Path)-1]
			e.PathFragment = append(e.PathFragment, 0)
		}},
		{"long path fragment replaced by its hash", map[string]string{"k" + pat(30, 1): "1", "q": "1"}, "k" + pat(30, 1), func(p *trie_blake2b.Proof) {
			e := p.Path[len(p.Path)-1]
			e.PathFragment = commitRef(pat(30, 1), h160)
			p.Key = append([]byte("k"), e.PathFragment...)
		}},
	}
	for _, k := range cases {
		s.Cases++
		fs := buildForgeState(cfg, k.content, []string{k.key})
		p := cloneProof(fs.proofs[0])
		k.forge(p)
		msg := runCase(func() { fs.tr.judge(p, func() string { return k.id }, nil) })
		if msg != "" && !c.Known(k.id) {
			c.report(s.Name, k.id, msg, "")
			return
		}
	}
}
