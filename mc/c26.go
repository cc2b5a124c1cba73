package main

import (
	"bytes"
	"fmt"
	"sync/atomic"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3"
)

func init() {
	register("C26", "model_checking", runC26)
}

// The state of one node: slot values and terminal are indices into pools, 0 means absent.
type nodeSt struct {
	kids [3]int
	term int
	pf   int
}

func (n nodeSt) empty() bool { return n.kids == [3]int{} && n.term == 0 }

// nodeUpd changes the node: per slot -1 means untouched, otherwise the new value (0 deletes)
type nodeUpd struct {
	kids [3]int
	term int
	mode int
	same bool // equal commitments are the same objects
}

const (
	updOnlyNode = iota // update == nil
	updFresh           // *update == nil
	updScratch         // *update is the previous commitment, to be calculated from scratch
	updDelta           // *update is the previous commitment, to be updated incrementally
	numUpdModes
)

var updModeName = []string{"no commitment requested", "no previous commitment", "from scratch", "incrementally"}

type updDomain struct {
	m     trie.CommitmentModel
	slots []byte
	vals  []trie.VCommitment // 1..
	terms []trie.TCommitment // 1..
	pfs   [][]byte
	comm  map[nodeSt]string // commitment of the node, from scratch
}

func newUpdDomain(cfg Cfg, m trie.CommitmentModel, slots []byte, nv, nt, np int) *updDomain {
	d := &updDomain{m: m, slots: slots, vals: []trie.VCommitment{nil}, terms: []trie.TCommitment{nil}, comm: map[nodeSt]string{}}
	d.vals = append(d.vals, vectorComms(cfg, m, nv)...)
	for i := 0; i < nt; i++ {
		d.terms = append(d.terms, m.CommitToData([]byte([]string{"1", pat(40, 1), "22"}[i])))
	}
	d.pfs = [][]byte{nil, symPath(3, cfg.Arity, 1)}[:np]
	return d
}

func (d *updDomain) states() []nodeSt {
	var ret []nodeSt
	n := len(d.vals)
	total := 1
	for range d.slots {
		total *= n
	}
	for i := 0; i < total*len(d.terms)*len(d.pfs); i++ {
		s := nodeSt{}
		k := i
		for j := range d.slots {
			s.kids[j] = k % n
			k /= n
		}
		s.term = k % len(d.terms)
		s.pf = k / len(d.terms)
		if !s.empty() {
			ret = append(ret, s)
		}
	}
	return ret
}

func (d *updDomain) node(s nodeSt) *trie.NodeData {
	r := trie.NewNodeData()
	r.PathFragment = append([]byte(nil), d.pfs[s.pf]...)
	for j, sl := range d.slots {
		if s.kids[j] != 0 {
			r.ChildCommitments[sl] = d.vals[s.kids[j]].Clone()
		}
	}
	if s.term != 0 {
		r.Terminal = d.terms[s.term].Clone()
	}
	return r
}

// updates are all updates applicable to the state which do not lead to the node without a terminal and children.
// Only existing children are deleted
func (d *updDomain) updates(s nodeSt) []nodeUpd {
	var ret []nodeUpd
	opts := len(d.vals) + 1
	total := 1
	for range d.slots {
		total *= opts
	}
	for i := 0; i < total; i++ {
		u := nodeUpd{kids: [3]int{-1, -1, -1}}
		k, ok := i, true
		for j := range d.slots {
			u.kids[j] = k%opts - 1
			k /= opts
			if u.kids[j] == 0 && s.kids[j] == 0 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		for u.term = range d.terms {
			if d.next(s, u).empty() {
				continue
			}
			for u.mode = 0; u.mode < numUpdModes; u.mode++ {
				u.same = false
				ret = append(ret, u)
				if d.anyEqual(s, u) {
					u.same = true
					ret = append(ret, u)
				}
			}
		}
	}
	return ret
}

// anyEqual tells if some of the new commitments is equal to another new one or to the present one
func (d *updDomain) anyEqual(s nodeSt, u nodeUpd) bool {
	seen := map[int]bool{}
	for j := range d.slots {
		if u.kids[j] > 0 {
			if u.kids[j] == s.kids[j] || seen[u.kids[j]] {
				return true
			}
			seen[u.kids[j]] = true
		}
	}
	return u.term > 0 && u.term == s.term
}

func (d *updDomain) next(s nodeSt, u nodeUpd) nodeSt {
	for j := range d.slots {
		if u.kids[j] >= 0 {
			s.kids[j] = u.kids[j]
		}
	}
	s.term = u.term
	return s
}

func (d *updDomain) str(s nodeSt) string {
	return fmt.Sprintf("children %v, terminal %d, fragment %d", s.kids[:len(d.slots)], s.term, s.pf)
}

func (d *updDomain) updStr(u nodeUpd) string {
	same := ""
	if u.same {
		same = ", same objects"
	}
	return fmt.Sprintf("-> %v, terminal %d, %s%s", u.kids[:len(d.slots)], u.term, updModeName[u.mode], same)
}

// apply applies the update to the live node with the live commitment and checks everything about it
func (d *updDomain) apply(node *trie.NodeData, prev trie.VCommitment, s nodeSt, u nodeUpd) (nodeSt, trie.VCommitment) {
	kids := map[byte]trie.VCommitment{}
	type arg struct {
		name string
		o    trie.Serializable
		was  string
	}
	var args []arg
	keep := func(name string, o trie.Serializable) {
		args = append(args, arg{name, o, string(o.Bytes())})
	}
	for j, sl := range d.slots {
		if u.kids[j] < 0 {
			continue
		}
		if u.kids[j] == 0 {
			kids[sl] = nil
			continue
		}
		kids[sl] = d.vals[u.kids[j]].Clone()
		if u.same {
			if u.kids[j] == s.kids[j] {
				kids[sl] = node.ChildCommitments[sl]
			} else {
				for k := 0; k < j; k++ {
					if u.kids[k] == u.kids[j] {
						kids[sl] = kids[d.slots[k]]
					}
				}
			}
		}
		keep("new child commitment", kids[sl])
	}
	for _, c := range node.ChildCommitments {
		keep("previous child commitment", c)
	}
	if node.Terminal != nil {
		keep("previous terminal", node.Terminal)
	}
	var term trie.TCommitment
	if u.term != 0 {
		term = d.terms[u.term].Clone()
		if u.same && u.term == s.term {
			term = node.Terminal
		}
		keep("new terminal", term)
	}
	keep("previous commitment of the node", prev)
	var upd *trie.VCommitment
	cur := prev
	switch u.mode {
	case updOnlyNode:
	case updFresh:
		cur = nil
		upd = &cur
	default:
		upd = &cur
	}
	d.m.UpdateNodeCommitment(node, kids, u.mode == updDelta, term, upd)
	for _, a := range args {
		if string(a.o.Bytes()) != a.was {
			failf("%s %s: the %s has been changed", d.str(s), d.updStr(u), a.name)
		}
	}
	ns := d.next(s, u)
	if nodeDesc(node, d.m) != nodeDesc(d.node(ns), d.m) {
		failf("%s %s: the node is %s", d.str(s), d.updStr(u), node)
	}
	scratch := d.m.CalcNodeCommitment(node)
	if commStr(scratch) != d.comm[ns] {
		failf("%s %s: commitment calculated from the updated node differs from the one of the same new node", d.str(s), d.updStr(u))
	}
	if upd == nil {
		return ns, scratch
	}
	if commStr(cur) != d.comm[ns] {
		failf("%s %s: the updated commitment differs from the commitment calculated from scratch", d.str(s), d.updStr(u))
	}
	if !d.m.EqualCommitments(cur, scratch) {
		failf("%s %s: the updated commitment is not equal to the one calculated from scratch", d.str(s), d.updStr(u))
	}
	return ns, cur
}

func (d *updDomain) prepare(c *Ctx, s *Section, all []nodeSt) bool {
	seen := make([]string, len(all))
	c.Par(len(all), func(i int) {
		c.Case(s, "from scratch: "+d.str(all[i]), func() {
			n := d.node(all[i])
			want := nodeDesc(n, d.m)
			seen[i] = commStr(d.m.CalcNodeCommitment(n))
			if commStr(d.m.CalcNodeCommitment(d.node(all[i]))) != seen[i] || nodeDesc(n, d.m) != want {
				failf("%s: calculation of the commitment is not repeatable or changes the node", d.str(all[i]))
			}
		})
	})
	if c.Done() {
		return false
	}
	by := map[string]nodeSt{}
	return c.Case(s, "from scratch: all different", func() {
		for i, st := range all {
			if o, ok := by[seen[i]]; ok && o != st {
				failf("nodes with equal commitments: %s and %s", d.str(o), d.str(st))
			}
			by[seen[i]] = st
			d.comm[st] = seen[i]
		}
	})
}

func commStr(v trie.VCommitment) string { return string(commBytes(v)) }

func runC26(c *Ctx) {
	cfgs := []Cfg{cfgKZG}
	for _, a := range trie.AllPathArity {
		for _, h := range trie_blake2b.AllHashSize {
			cfgs = append(cfgs, Cfg{Kind: "b2b", Arity: a, HS: h})
		}
	}
	for _, cfg := range cfgs {
		m := cfg.NewModel()
		last := byte(cfg.Arity)
		slots := []byte{0, last/2 + 1, last}
		nv := 2
		if last == 1 {
			slots, nv = []byte{0, 1}, 3
		}
		// every state and every update
		s, end := c.Begin("updates "+cfg.String(), fmt.Sprintf("all nodes with children at the indices %v out of %d commitments, 2 terminals or none, 2 path fragments; all sets of changes of the children x new terminals x 4 ways to request the commitment", slots, nv))
		d := newUpdDomain(cfg, m, slots, nv, 2, 2)
		all := d.states()
		if !d.prepare(c, s, all) {
			return
		}
		c.Par(len(all), func(i int) {
			st := all[i]
			prev := d.m.CalcNodeCommitment(d.node(st))
			atomic.AddInt64(&s.States, 1)
			for k, u := range d.updates(st) {
				if c.Done() {
					return
				}
				if cfg.Kind == "kzg" && c.quick() && st.pf == 1 && (k+i)%7 != 0 {
					continue
				}
				c.Case(s, d.str(st)+" "+d.updStr(u), func() {
					d.apply(d.node(st), prev.Clone(), st, u)
				})
				c.outcomeFast(updModeName[u.mode])
				atomic.AddInt64(&s.Transitions, 1)
			}
		})
		end()
		// histories on one live node
		depth := c.pick(2, 3)
		s, end = c.Begin("histories "+cfg.String(), fmt.Sprintf("all sequences of %d updates of one node with the same objects; child at the index %d", depth, last))
		s.MaxDepth = depth
		d = newUpdDomain(cfg, m, []byte{last}, 2, 2, 1)
		all = d.states()
		if !d.prepare(c, s, all) {
			return
		}
		type start struct {
			st nodeSt
			u  nodeUpd
		}
		var starts []start
		for _, st := range all {
			for _, u := range d.updates(st) {
				starts = append(starts, start{st, u})
			}
		}
		c.Par(len(starts), func(i int) {
			var rec func(path []nodeUpd, st nodeSt)
			rec = func(path []nodeUpd, st nodeSt) {
				if len(path) < depth {
					for _, u := range d.updates(st) {
						rec(append(append([]nodeUpd{}, path...), u), d.next(st, u))
					}
					return
				}
				if c.Done() {
					return
				}
				id := d.str(starts[i].st)
				for _, u := range path {
					id += " " + d.updStr(u)
				}
				c.Case(s, id, func() {
					cur := starts[i].st
					node := d.node(cur)
					comm := d.m.CalcNodeCommitment(node)
					var seen []trie.VCommitment
					var was []string
					for _, u := range path {
						seen, was = append(seen, comm), append(was, commStr(comm))
						cur, comm = d.apply(node, comm, cur, u)
						for k := range seen {
							if commStr(seen[k]) != was[k] {
								failf("%s: a commitment obtained before has been changed", id)
							}
						}
					}
				})
				atomic.AddInt64(&s.Transitions, int64(depth))
			}
			rec([]nodeUpd{starts[i].u}, d.next(starts[i].st, starts[i].u))
		})
		end()
	}
	c.kzgEveryIndex()
	c.flushOutcomes()
}

// kzgEveryIndex: the increment uses the right element of the vector for every index
func (c *Ctx) kzgEveryIndex() {
	m := trie_kzg_bn256.Model
	comms := vectorComms(cfgKZG, m, 2)
	s, end := c.Begin("every index", "a child set, changed and deleted incrementally at every index 0..255; addition of the difference of commitments")
	defer end()
	c.Par(256, func(i int) {
		c.Case(s, fmt.Sprintf("index %d", i), func() {
			n := trie.NewNodeData()
			n.Terminal = m.CommitToData([]byte("t"))
			prev := m.CalcNodeCommitment(n)
			diffFrom := prev
			for step, v := range []trie.VCommitment{comms[0], comms[1], nil} {
				cur := prev
				m.UpdateNodeCommitment(n, map[byte]trie.VCommitment{byte(i): v}, true, n.Terminal, &cur)
				f := trie.NewNodeData()
				f.Terminal = m.CommitToData([]byte("t"))
				if v != nil {
					f.ChildCommitments[byte(i)] = v
				}
				if commStr(cur) != commStr(m.CalcNodeCommitment(f)) {
					failf("index %d step %d: the updated commitment differs from the commitment calculated from scratch", i, step)
				}
				// the commitment is additive
				sum := diffFrom.Clone()
				m.UpdateVCommitment(&sum, minus(m, cur, diffFrom))
				if commStr(sum) != commStr(cur) {
					failf("index %d step %d: adding the difference does not give the commitment", i, step)
				}
				var from0 trie.VCommitment
				m.UpdateVCommitment(&from0, cur)
				if commStr(from0) != commStr(cur) {
					failf("index %d step %d: adding the commitment to nothing does not give it", i, step)
				}
				// a sum is not shared with what was added
				was := commStr(cur)
				m.UpdateVCommitment(&from0, comms[1])
				if commStr(cur) != was || commStr(from0) == was {
					failf("index %d step %d: the commitment added to a sum has been changed with it", i, step)
				}
				prev = cur
				atomic.AddInt64(&s.Transitions, 1)
			}
		})
	})
}

// minus returns a-b as a commitment of the model
func minus(m *trie_kzg_bn256.CommitmentModel, a, b trie.VCommitment) trie.VCommitment {
	pt := func(v trie.VCommitment) kyber.Point {
		p := m.Suite.G1().Point()
		if err := p.UnmarshalBinary(v.Bytes()); err != nil {
			failf("commitment does not unmarshal: %v", err)
		}
		return p
	}
	d := m.Suite.G1().Point().Sub(pt(a), pt(b))
	data, err := d.MarshalBinary()
	if err != nil {
		failf("%v", err)
	}
	ret := m.NewVectorCommitment()
	if err := ret.Read(bytes.NewReader(data)); err != nil {
		failf("commitment is not read: %v", err)
	}
	return ret
}
