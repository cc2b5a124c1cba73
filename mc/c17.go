package main

import (
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3"
)

func init() {
	register("C17", "model_checking", runC17)
}

type kzgProof = trie_kzg_bn256.ProofOfInclusion

func cloneKZG(p *kzgProof) *kzgProof {
	r := &kzgProof{Key: append([]byte{}, p.Key...), Terminal: p.Terminal.Clone()}
	for _, e := range p.Path {
		r.Path = append(r.Path, cloneKElem(e))
	}
	return r
}

func cloneKElem(e *trie_kzg_bn256.ProofElement) *trie_kzg_bn256.ProofElement {
	return &trie_kzg_bn256.ProofElement{C: e.C.Clone(), VectorIndex: e.VectorIndex, Proof: e.Proof.Clone()}
}

// checkKZG is the complete check of one key of a committed state
func checkKZG(ns trie.NodeStore, content map[string]string, key string, wrong []string) (*kzgProof, string) {
	m := trie_kzg_bn256.Model
	p, ok := m.ProofOfInclusion([]byte(key), ns)
	v, present := content[key]
	if ok != present || (p != nil) != ok {
		failf("content %s key %s: proof of inclusion produced=%v, key present=%v", mapStr(content), q(key), ok, present)
	}
	if !ok {
		return nil, "absent"
	}
	root := trie.RootCommitment(ns)
	if string(p.Key) != key {
		failf("content %s key %s: the proof has the key %x", mapStr(content), q(key), p.Key)
	}
	if err := p.Validate(root, []byte(v)); err != nil {
		failf("content %s key %s: proof does not validate with its value: %v", mapStr(content), q(key), err)
	}
	for _, w := range append(append([]string{}, wrong...), "", v+"\x00", v+"x", key+"?") {
		if w != v && p.Validate(root, []byte(w)) == nil {
			failf("content %s key %s: proof validates with the wrong value %s", mapStr(content), q(key), q(w))
		}
	}
	return p, fmt.Sprintf("present, path of %d", len(p.Path))
}

// kzgCase builds the content and checks the proofs of the keys from the trie and from a reader or a reopened trie
func (c *Ctx) kzgCase(s *Section, content map[string]string, probes, wrong []string, variant int) {
	x := NewSUT(cfgKZG)
	for i, k := range sortedKeys(content) {
		if variant%3 == 1 && i == len(content)/2 {
			x.Apply(Op{T: 'P'})
			x.Apply(Op{T: 'X'})
		}
		x.Apply(Op{'U', k, content[k]})
	}
	x.Apply(Op{T: 'C'})
	var ns trie.NodeStore = x.tr
	switch variant % 3 {
	case 1:
		x.Apply(Op{T: 'p'})
		ns = x.reader()
	case 2:
		x.Apply(Op{T: 'p'})
		x.Apply(Op{T: 'R'})
		ns = x.tr
	}
	atomic.AddInt64(&s.States, 1)
	for _, k := range probes {
		_, o := checkKZG(ns, content, k, wrong)
		c.outcomeFast(o)
		atomic.AddInt64(&s.Transitions, 1)
	}
}

// ---- soundness

type kzgState struct {
	content map[string]string
	root    trie.VCommitment
	proofs  []*kzgProof
}

type kzgForge struct {
	states  []*kzgState
	genuine map[string]bool // root + proof without the key
	mu      sync.Mutex
}

// bodyOf is the proof without its key: the binding to the key is subject of the known finding K4
func bodyOf(p *kzgProof) string {
	x := *p
	x.Key = nil
	return string(x.Bytes())
}

func newKZGForge(contents []map[string]string) *kzgForge {
	f := &kzgForge{genuine: map[string]bool{}}
	for _, ct := range contents {
		m := trie_kzg_bn256.Model
		rd := trie.NewTrieReader(m, &Store{m: expectFor(cfgKZG, ct).store}, nil)
		st := &kzgState{content: ct, root: trie.RootCommitment(rd)}
		for _, k := range sortedKeys(ct) {
			p, ok := m.ProofOfInclusion([]byte(k), rd)
			if !ok {
				failf("content %s: no proof of %s", mapStr(ct), q(k))
			}
			st.proofs = append(st.proofs, p)
			f.genuine[string(commBytes(st.root))+bodyOf(p)] = true
		}
		f.states = append(f.states, st)
	}
	return f
}

// judge: an altered proof is accepted by the root only if it is one of the genuine proofs of that state
func (f *kzgForge) judge(st *kzgState, p *kzgProof, id func() string) bool {
	if f.genuine[string(commBytes(st.root))+bodyOf(p)] {
		return false
	}
	if p.Validate(st.root) == nil {
		failf("altered proof is accepted: %s", id())
	}
	return true
}

func runC17(c *Ctx) {
	m := trie_kzg_bn256.Model
	// completeness: all contents
	for _, un := range sortedNames(universes6) {
		keys := universes6[un]
		if c.quick() && un != "mix" {
			keys = keys[:4]
		}
		s, end := c.Begin("contents "+un, fmt.Sprintf("all subsets of %d keys, every probe key; from the trie, a reader or a reopened trie", len(keys)))
		probes := probesFor(keys)
		c.Par(1<<uint(len(keys)), func(sub int) {
			content := map[string]string{}
			for i, k := range keys {
				if sub&(1<<uint(i)) != 0 {
					content[k] = []string{"1", "v" + k, pat(40, byte(i)), "\x00"}[(i+sub)%4]
				}
			}
			c.Case(s, mapStr(content), func() { c.kzgCase(s, content, probes, []string{"1", "v", pat(40, 1)}, sub) })
		})
		end()
	}
	// every vector index
	s, end := c.Begin("vector indices", "a node with children at each pair (i, i+d), every i, d in {1, 128}; every child key and the terminal of the node; a node with all 256 children")
	c.Par(512, func(i int) {
		a, b := i%256, (i%256+[]int{1, 128}[i/256])%256
		if c.quick() && i >= 256 && i%8 != 0 {
			return
		}
		content := map[string]string{"n" + string([]byte{byte(a)}): "1", "n" + string([]byte{byte(b)}) + "z": "2"}
		if i%2 == 0 {
			content["n"] = "3"
		}
		c.Case(s, mapStr(content), func() {
			c.kzgCase(s, content, append(sortedKeys(content), "n"+string([]byte{byte(b)}), "n"+string([]byte{byte(a + 1), 1}), "n"), nil, i)
		})
	})
	full := map[string]string{"": "root"}
	for i := 0; i < 256; i++ {
		full[string([]byte{byte(i)})] = fmt.Sprint(i)
	}
	fp := []string{"", "\x00", "\x7f", "\xff", "\xffx"}
	if !c.quick() {
		fp = append(sortedKeys(full), "\xffx")
	}
	{
		x := NewSUT(cfgKZG)
		ok := c.Case(s, "256 children", func() {
			for _, k := range sortedKeys(full) {
				x.Apply(Op{'U', k, full[k]})
			}
			x.Apply(Op{T: 'P'})
		})
		if ok {
			c.Par(len(fp), func(i int) {
				c.Case(s, "256 children, key "+q(fp[i]), func() {
					checkKZG(x.reader(), full, fp[i], nil)
					atomic.AddInt64(&s.Transitions, 1)
				})
			})
		}
	}
	end()
	// lengths
	s, end = c.Begin("lengths", "key lengths in 4 shapes, value lengths, chains")
	nk, fk := sweepKeyLens([]int{1, 2, 3, 31, 32, 33, 64, 255, 256, 300})
	nv, fv := sweepValLens(append(rng(c.pick(28, 1), 36, 1), 1, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000))
	nd, fd := sweepDepth([]int{2, 4, 7})
	c.Par(nk+nv+nd, func(i int) {
		var keys, vals []string
		var id string
		switch {
		case i < nk:
			keys, vals, id = fk(i)
		case i < nk+nv:
			keys, vals, id = fv(i - nk)
		default:
			keys, vals, id = fd(i - nk - nv)
		}
		content := map[string]string{}
		for j, k := range keys {
			content[k] = vals[j%len(vals)]
		}
		pr := probesFor(keys)
		if len(pr) > 12 {
			pr = pr[:12]
		}
		c.Case(s, id, func() { c.kzgCase(s, content, pr, []string{"v", "w"}, i) })
	})
	end()
	// reachable states
	kz := universes3["fork"][:2]
	for un, keys := range map[string][]string{"chain": {"a", "ab"}, "fork": {"ab", "ac"}, "root": {"", "b"}} {
		c.Closures([]Cfg{cfgKZG}, map[string][]string{un: keys}, []string{"1"}, "CFX", nil, func(s *SUT, h []Op) {
			for _, k := range probesFor(keys) {
				checkKZG(s.reader(), s.persisted, k, nil)
				if !s.dirty {
					checkKZG(s.tr.Clone(), s.content, k, nil)
				}
			}
		}, 0, c.pick(5, 9))
	}
	_ = kz
	if c.quick() {
		c.kzgDeep([]int{20, 260})
	} else {
		c.kzgDeep([]int{20, 130, 260, 700})
	}
	c.kzgSoundness(m)
	c.flushOutcomes()
}

func (c *Ctx) kzgSoundness(m *trie_kzg_bn256.CommitmentModel) {
	contents := []map[string]string{
		{"a": "1", "ab": "2", "abc": "3", "b": "1"},
		{"a": "1", "ab": "2", "abc": "4", "b": "1"},
		{"a": "1"},
		{"ab": "2", "ac": "1"},
		{"": "1", "\x00": "2", "\xff": "1", "\xff\xff": "2"},
		{"x": "1", "xa": "1", "xb": "1"},
	}
	var f *kzgForge
	s, end := c.Begin("altered proofs", fmt.Sprintf("all proofs of %d states x every element: C, proof replaced by all points of the pool, every vector index, terminal by all scalars of the pool; dropped, repeated, swapped, inserted and spliced elements at all places; all other roots, values", len(contents)))
	defer end()
	if !c.Case(s, "setup", func() { f = newKZGForge(contents) }) {
		return
	}
	g1 := m.Suite.G1()
	points := map[string]kyber.Point{"infinity": g1.Point().Null(), "G": g1.Point().Base(), "L0": m.LagrangeBasis[0], "L256": m.LagrangeBasis[256]}
	scalars := map[string]kyber.Scalar{"0": g1.Scalar().Zero(), "1": g1.Scalar().One(), "-1": g1.Scalar().SetInt64(-1)}
	for i, st := range f.states {
		for j, p := range st.proofs {
			scalars[fmt.Sprintf("terminal %d.%d", i, j)] = p.Terminal
			for n, e := range p.Path {
				points[fmt.Sprintf("C %d.%d.%d", i, j, n)] = e.C
				points[fmt.Sprintf("proof %d.%d.%d", i, j, n)] = e.Proof
			}
		}
	}
	pn, sn := []string{}, []string{}
	for k := range points {
		pn = append(pn, k)
	}
	for k := range scalars {
		sn = append(sn, k)
	}
	sortStrings(pn)
	sortStrings(sn)
	type alt struct {
		id string
		p  func() *kzgProof
	}
	type job struct {
		st, pr int
	}
	var jobs []job
	for i, st := range f.states {
		for j := range st.proofs {
			jobs = append(jobs, job{i, j})
		}
	}
	// element-wise alterations, split by parts for parallelism
	var elems []*trie_kzg_bn256.ProofElement
	var elemIDs []string
	for i, st := range f.states {
		for j, p := range st.proofs {
			for n, e := range p.Path {
				elems = append(elems, e)
				elemIDs = append(elemIDs, fmt.Sprintf("%d.%d.%d", i, j, n))
			}
		}
	}
	try := func(st *kzgState, p *kzgProof, id func() string) {
		if c.Done() {
			return
		}
		f.judge(st, p, id)
		atomic.AddInt64(&s.Transitions, 1)
	}
	const parts = 8
	c.Par(len(jobs)*parts, func(n int) {
		j := jobs[n/parts]
		part := n % parts
		st := f.states[j.st]
		p := st.proofs[j.pr]
		name := fmt.Sprintf("proof of %s in %s", q(string(p.Key)), mapStr(st.content))
		c.Case(s, fmt.Sprintf("%s part %d", name, part), func() {
			cnt := 0
			mine := func() bool { cnt++; return cnt%parts == part }
			for i, e := range p.Path {
				for _, k := range pn {
					for _, op := range []int{0, 1, 2} {
						if op > 0 && k != "G" && c.quick() || !mine() {
							continue
						}
						x := cloneKZG(p)
						switch op {
						case 0:
							x.Path[i].C = points[k].Clone()
						case 1:
							x.Path[i].C = g1.Point().Add(e.C, points[k])
						case 2:
							x.Path[i].C = g1.Point().Sub(e.C, points[k])
						}
						if i == 0 || x.Path[i].C.Equal(e.C) {
							// the root element: checked against the root first
							try(st, x, func() string { return fmt.Sprintf("%s, C of element %d by %s op %d", name, i, k, op) })
							continue
						}
						try(st, x, func() string { return fmt.Sprintf("%s, C of element %d by %s op %d", name, i, k, op) })
					}
					if !mine() {
						continue
					}
					for _, op := range []int{0, 1, 2} {
						if op > 0 && k != "G" && c.quick() {
							continue
						}
						x := cloneKZG(p)
						switch op {
						case 0:
							x.Path[i].Proof = points[k].Clone()
						case 1:
							x.Path[i].Proof = g1.Point().Add(e.Proof, points[k])
						case 2:
							x.Path[i].Proof = g1.Point().Neg(e.Proof)
						}
						try(st, x, func() string { return fmt.Sprintf("%s, proof of element %d by %s op %d", name, i, k, op) })
					}
				}
				for idx := 0; idx < 300; idx++ {
					if !mine() || c.quick() && idx%4 != i%4 && idx > 3 && idx < 252 && idx != int(e.VectorIndex)+1 {
						continue
					}
					x := cloneKZG(p)
					x.Path[i].VectorIndex = uint16(idx)
					try(st, x, func() string { return fmt.Sprintf("%s, index of element %d by %d", name, i, idx) })
				}
				for _, idx := range []int{512, 32768, 65535, 65280 + int(e.VectorIndex)%256, 256 + int(e.VectorIndex)%256} {
					if !mine() {
						continue
					}
					x := cloneKZG(p)
					x.Path[i].VectorIndex = uint16(idx)
					try(st, x, func() string { return fmt.Sprintf("%s, index of element %d by %d", name, i, idx) })
				}
			}
			for _, k := range sn {
				if !mine() {
					continue
				}
				for op := 0; op < 2; op++ {
					x := cloneKZG(p)
					if op == 0 {
						x.Terminal = scalars[k].Clone()
					} else {
						x.Terminal.Add(x.Terminal, scalars[k])
					}
					try(st, x, func() string { return fmt.Sprintf("%s, terminal by %s op %d", name, k, op) })
				}
			}
			// structure
			for i := 0; i <= len(p.Path); i++ {
				if mine() {
					x := cloneKZG(p)
					x.Path = x.Path[:i]
					try(st, x, func() string { return fmt.Sprintf("%s, cut to %d elements", name, i) })
					x = cloneKZG(p)
					x.Path = x.Path[i:]
					try(st, x, func() string { return fmt.Sprintf("%s, without the first %d elements", name, i) })
				}
				for n, e := range elems {
					if !mine() {
						continue
					}
					x := cloneKZG(p)
					x.Path = append(append(append([]*trie_kzg_bn256.ProofElement{}, x.Path[:i]...), cloneKElem(e)), x.Path[i:]...)
					try(st, x, func() string { return fmt.Sprintf("%s, element %s inserted at %d", name, elemIDs[n], i) })
					if i < len(p.Path) {
						x = cloneKZG(p)
						x.Path[i] = cloneKElem(e)
						try(st, x, func() string { return fmt.Sprintf("%s, element %d replaced by %s", name, i, elemIDs[n]) })
						x = cloneKZG(p)
						v := x.Path[i].VectorIndex
						x.Path[i] = cloneKElem(e)
						x.Path[i].VectorIndex = v
						try(st, x, func() string {
							return fmt.Sprintf("%s, element %d replaced by %s with the old index", name, i, elemIDs[n])
						})
					}
				}
				for k := 0; k < i && i < len(p.Path); k++ {
					if mine() {
						x := cloneKZG(p)
						x.Path[i], x.Path[k] = x.Path[k], x.Path[i]
						try(st, x, func() string { return fmt.Sprintf("%s, elements %d and %d swapped", name, i, k) })
						x = cloneKZG(p)
						x.Path = append(x.Path[:k], x.Path[i:]...)
						try(st, x, func() string { return fmt.Sprintf("%s, elements %d to %d removed", name, k, i) })
					}
				}
				// spliced with all suffixes of all other proofs, with their or the own terminal
				for oi, os := range f.states {
					for oj, op := range os.proofs {
						for k := 0; k <= len(op.Path); k++ {
							if !mine() || i+len(op.Path)-k == 0 {
								continue
							}
							for t := 0; t < 2; t++ {
								x := cloneKZG(p)
								x.Path = append(x.Path[:i], cloneKZG(op).Path[k:]...)
								if t == 1 {
									x.Terminal = op.Terminal.Clone()
								}
								try(st, x, func() string {
									return fmt.Sprintf("%s, first %d elements followed by those from %d of proof %d.%d, terminal %d", name, i, k, oi, oj, t)
								})
							}
						}
					}
				}
			}
			// other roots and values
			if part == 0 {
				for oi, os := range f.states {
					x := cloneKZG(p)
					if oi != j.st {
						try(os, x, func() string { return fmt.Sprintf("%s, root of %s", name, mapStr(os.content)) })
					}
				}
				for _, n := range []trie.VCommitment{nil, m.NewVectorCommitment(), m.CalcNodeCommitment(&trie.NodeData{PathFragment: []byte("q")})} {
					if p.Validate(n) == nil || p.Validate(n, []byte(st.content[string(p.Key)])) == nil {
						failf("%s is accepted with a wrong root", name)
					}
				}
				for i := range p.Path {
					if i > 0 {
						r := nodeCommitment(m, p.Path[i].C)
						if p.Validate(r) == nil {
							failf("%s is accepted with the commitment to element %d as the root", name, i)
						}
					}
				}
				for l := 0; l < 70; l++ {
					for _, w := range []string{pat(l, 1), rep("\x00", l), rep("1", l)} {
						if w != st.content[string(p.Key)] && p.Validate(st.root, []byte(w)) == nil {
							failf("%s is accepted with the value %s", name, q(w))
						}
					}
				}
			}
		})
	})
	// K4
	ks, kend := c.Begin("known findings", "K4: proofs with another key")
	defer kend()
	st := f.states[0]
	x := cloneKZG(st.proofs[0])
	x.Key = []byte("zzz")
	if x.Validate(st.root, []byte(st.content[string(st.proofs[0].Key)])) == nil && !c.Known("relabelled key") {
		c.report(ks.Name, "K4", fmt.Sprintf("proof of %s in %s relabelled to zzz is accepted", q(string(st.proofs[0].Key)), mapStr(st.content)), "")
	}
	ks.Transitions++
}

// nodeCommitment makes a vector commitment of the point
func nodeCommitment(m *trie_kzg_bn256.CommitmentModel, p kyber.Point) trie.VCommitment {
	r := m.NewVectorCommitment()
	b, err := p.MarshalBinary()
	if err != nil {
		failf("%v", err)
	}
	if err := readFrom(r, b); err != nil {
		failf("%v", err)
	}
	return r
}

// kzgDeep: proofs of many elements
func (c *Ctx) kzgDeep(depths []int) {
	s, end := c.Begin("deep proofs", fmt.Sprintf("chains of %v nodes: proofs of the keys at the ends, in the middle and around 2^7 and 2^8; an element replaced by its neighbour or without effect of its proof at the same places", depths))
	defer end()
	g1 := trie_kzg_bn256.Model.Suite.G1()
	for _, n := range depths {
		if c.Done() {
			return
		}
		content := map[string]string{}
		long := pat(n, 7)
		for i := 0; i < n; i++ {
			content[long[:i]] = fmt.Sprint(i)
		}
		var ns trie.NodeStore
		if !c.Case(s, fmt.Sprintf("%d nodes", n), func() {
			x := NewSUT(cfgKZG)
			for _, k := range sortedKeys(content) {
				x.Apply(Op{'U', k, content[k]})
			}
			x.Apply(Op{T: 'P'})
			ns = x.reader()
		}) {
			return
		}
		var at []int
		for j, i := range []int{0, 1, n / 2, 126, 127, 128, 254, 255, 256, n - 2, n - 1} {
			if i < n && (!c.quick() || j%2 == 1 || j == 10) {
				at = append(at, i)
			}
		}
		at = dedupInts(at)
		c.Par(len(at), func(i int) {
			k := long[:at[i]]
			c.Case(s, fmt.Sprintf("%d nodes, key of %d bytes", n, len(k)), func() {
				p, ok := trie_kzg_bn256.Model.ProofOfInclusion([]byte(k), ns)
				if !ok {
					failf("no proof")
				}
				root := trie.RootCommitment(ns)
				if err := p.Validate(root, []byte(content[k])); err != nil {
					failf("the proof of %d elements does not validate: %v", len(p.Path), err)
				}
				b := p.Bytes()
				y, err := trie_kzg_bn256.ProofOfInclusionFromBytes(b)
				if err != nil || string(y.Bytes()) != string(b) {
					failf("the proof of %d elements does not survive its encoding: %v", len(p.Path), err)
				}
				if err := y.Validate(root, []byte(content[k])); err != nil {
					failf("the decoded proof of %d elements does not validate: %v", len(p.Path), err)
				}
				atomic.AddInt64(&s.Transitions, 3)
			})
		})
		deepest, ok := trie_kzg_bn256.Model.ProofOfInclusion([]byte(long[:n-1]), ns)
		if !ok {
			c.Case(s, fmt.Sprintf("%d nodes, deepest key", n), func() { failf("no proof") })
			return
		}
		root := trie.RootCommitment(ns)
		var idx []int
		for _, i := range append(at, len(deepest.Path)-1, len(deepest.Path)-2) {
			if i >= 0 && i < len(deepest.Path) {
				idx = append(idx, i)
			}
		}
		idx = dedupInts(idx)
		c.Par(len(idx)*4, func(j int) {
			i := idx[j/4]
			if c.quick() && j%4 > 1 && n > 20 {
				return
			}
			c.Case(s, fmt.Sprintf("%d nodes, element %d, alteration %d", n, i, j%4), func() {
				x := cloneKZG(deepest)
				o := (i + 1) % len(x.Path)
				switch j % 4 {
				case 0:
					x.Path[i].C = deepest.Path[o].C.Clone()
				case 1:
					x.Path[i].Proof = deepest.Path[o].Proof.Clone()
				case 2:
					x.Path[i].C = g1.Point().Add(x.Path[i].C, g1.Point().Base())
				case 3:
					x.Path[i].VectorIndex = x.Path[i].VectorIndex%256 + 1
				}
				if string(x.Bytes()) != string(deepest.Bytes()) && x.Validate(root) == nil {
					failf("the altered proof is accepted")
				}
				atomic.AddInt64(&s.Transitions, 1)
			})
		})
	}
}
