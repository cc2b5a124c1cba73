package main

import (
	"bytes"
	"fmt"
	"io"
	"sync/atomic"

	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register("C12", "fault_enumeration", runC12)
}

// nodeDesc is an unambiguous description of the node data, including the storage attribute of the terminal
func nodeDesc(n *trie.NodeData, m trie.CommitmentModel) string {
	var b []byte
	num := func(i int) { b = append(b, byte(i), byte(i>>8), byte(i>>16)) }
	str := func(x []byte) { num(len(x)); b = append(b, x...) }
	str(n.PathFragment)
	if nilT(n.Terminal) {
		b = append(b, 'N')
	} else {
		b = append(b, 'T')
		str(n.Terminal.Bytes())
		if m.ForceStoreTerminalWithNode(n.Terminal) {
			b = append(b, 'F')
		}
	}
	num(len(n.ChildCommitments))
	for i := 0; i < 256; i++ {
		if c, ok := n.ChildCommitments[byte(i)]; ok {
			num(i)
			str(commBytes(c))
		}
	}
	return string(b)
}

// nodeCase is one node: where it is and where its terminal is stored
type nodeCase struct {
	id       string
	n        *trie.NodeData
	key      []byte // unpacked
	fromKey  bool
	fromVal  bool
	valStore *Store
}

func (nc nodeCase) codec(cfg Cfg, m trie.CommitmentModel) codec {
	var vs trie.KVReader
	if nc.valStore != nil {
		vs = nc.valStore
	}
	return codec{name: "node record", want: nodeDesc(nc.n, m),
		write: func(w io.Writer) error { return nc.n.Write(w, cfg.Arity, nc.fromKey, nc.fromVal) },
		dec: func(d []byte) (string, error) {
			n, err := trie.NodeDataFromBytes(m, d, nc.key, cfg.Arity, vs)
			if err != nil {
				return "", err
			}
			return nodeDesc(n, m), nil
		},
		read: func(r io.Reader) (string, error) {
			n := trie.NewNodeData()
			if err := n.Read(r, m, nc.key, cfg.Arity, vs); err != nil {
				return "", err
			}
			return nodeDesc(n, m), nil
		}}
}

// vectorComms are different valid vector commitments of the model
func vectorComms(cfg Cfg, m trie.CommitmentModel, n int) []trie.VCommitment {
	r := make([]trie.VCommitment, n)
	for i := range r {
		if cfg.Kind == "kzg" && i >= 8 {
			r[i] = r[i%8] // computing them is slow
			continue
		}
		r[i] = m.CalcNodeCommitment(&trie.NodeData{PathFragment: []byte{byte(i & 1)}, Terminal: m.CommitToData([]byte{1, byte(i), byte(i >> 8)}), ChildCommitments: map[byte]trie.VCommitment{}})
	}
	return r
}

func symPath(n int, a trie.PathArity, salt int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte((i*5 + salt*3 + i/7)) & byte(a)
	}
	return b
}

func (c *Ctx) nodeCases(cfg Cfg, m trie.CommitmentModel) []nodeCase {
	nsym := int(cfg.Arity) + 1
	comms := vectorComms(cfg, m, 256)
	kids := func(idx ...int) map[byte]trie.VCommitment {
		r := map[byte]trie.VCommitment{}
		for _, i := range idx {
			r[byte(i)] = comms[i]
		}
		return r
	}
	var ret []nodeCase
	add := func(nc nodeCase, format string, a ...interface{}) {
		nc.id = fmt.Sprintf(format, a...)
		if nc.n.ChildCommitments == nil {
			nc.n.ChildCommitments = kids()
		}
		ret = append(ret, nc)
	}
	short := m.CommitToData([]byte("v"))
	// every single child; with and without the terminal and the fragment
	for i := 0; i < nsym; i++ {
		for k := 0; k < 4; k++ {
			if c.quick() && nsym == 256 && k != i%4 {
				continue
			}
			n := &trie.NodeData{ChildCommitments: kids(i)}
			if k&1 != 0 {
				n.Terminal = short
			}
			if k&2 != 0 {
				n.PathFragment = symPath(1+i%3, cfg.Arity, i)
			}
			add(nodeCase{n: n, key: symPath(i%4, cfg.Arity, 1)}, "child %d, terminal %v, fragment %x", i, n.Terminal != nil, n.PathFragment)
		}
	}
	// all pairs of children (every step-th for arity 256), all sets of children for arity 2
	step := 1
	if nsym == 256 {
		step = c.pick(23, 5)
		if cfg.Kind == "kzg" {
			step = c.pick(51, 17)
		}
	}
	for i := 0; i < nsym; i++ {
		for j := i + 1; j < nsym; j += step {
			add(nodeCase{n: &trie.NodeData{ChildCommitments: kids(i, j)}}, "children %d and %d", i, j)
		}
		if i+1 < nsym {
			add(nodeCase{n: &trie.NodeData{ChildCommitments: kids(i, nsym-1), Terminal: short}}, "children %d and %d with terminal", i, nsym-1)
		}
	}
	// every number of children: the first and the last ones; all but one
	for n := 3; n <= nsym; n++ {
		if nsym == 256 && n > 20 && n < 250 && n%c.pick(37, 5) != 0 {
			continue
		}
		var a, b []int
		for i := 0; i < n; i++ {
			a = append(a, i)
			b = append(b, nsym-1-i)
		}
		add(nodeCase{n: &trie.NodeData{ChildCommitments: kids(a...)}}, "first %d children", n)
		add(nodeCase{n: &trie.NodeData{ChildCommitments: kids(b...), Terminal: short, PathFragment: symPath(3, cfg.Arity, n)}}, "last %d children", n)
	}
	if nsym == 16 {
		for set := 1; set < 1<<16; set += c.pick(97, 7) {
			var a []int
			for i := 0; i < 16; i++ {
				if set&(1<<uint(i)) != 0 {
					a = append(a, i)
				}
			}
			add(nodeCase{n: &trie.NodeData{ChildCommitments: kids(a...)}}, "set of children %04x", set)
		}
	}
	// path fragments of every length, with children and/or terminal
	lens := append(rng(0, 70, 1), 127, 128, 129, 254, 255, 256, 257, 511, 512, 1000, 4096)
	if !c.quick() {
		lens = append(rng(0, 600, 1), 1000, 4095, 4096, 4097)
	}
	switch cfg.Arity {
	case a256:
		lens = append(lens, 65534, 65535)
	case a16:
		lens = append(lens, 65535, 2*65534)
	case a2:
		lens = append(lens, 65535, 8*65534)
	}
	for _, l := range lens {
		pf := symPath(l, cfg.Arity, l)
		add(nodeCase{n: &trie.NodeData{PathFragment: pf, Terminal: short}, key: symPath(l%5, cfg.Arity, 2)}, "fragment of %d, terminal", l)
		if l < 5000 {
			add(nodeCase{n: &trie.NodeData{PathFragment: pf, ChildCommitments: kids(0, nsym-1)}, key: symPath(l%3, cfg.Arity, 2)}, "fragment of %d, children", l)
		}
	}
	// terminals of every size, of all storage kinds
	vlens := append(rng(1, 70, 1), 100, 255, 256, 1000)
	for _, l := range vlens {
		for _, v := range []string{pat(l, byte(l)), rep("\x00", l), rep("\xff", l)} {
			t := m.CommitToData([]byte(v))
			for k := 0; k < 2; k++ {
				var ch map[byte]trie.VCommitment
				if k == 1 {
					ch = kids(1, nsym-1)
				}
				add(nodeCase{n: &trie.NodeData{Terminal: t, ChildCommitments: ch}, key: symPath(2, cfg.Arity, l)}, "terminal of the value %s, %d children", q(v), len(ch))
			}
		}
	}
	per := symPerByte(cfg.Arity)
	// terminal taken from the value store: all splits of the key into position and fragment
	for kl := 0; kl <= 5; kl++ {
		key := pat(kl, byte(kl+7))
		u := unpackRef(key, cfg.Arity)
		for _, vl := range []int{1, 2, 19, 20, 21, 31, 32, 33, 34, 100} {
			st := NewStore()
			v := pat(vl, byte(kl))
			st.m[key] = v
			st.m[key+"\x00"] = "other"
			if kl > 0 {
				st.m[key[:kl-1]] = "other"
			}
			for pos := 0; pos <= len(u); pos++ {
				if vl != 1 && vl != 33 && pos%3 != vl%3 {
					continue
				}
				n := &trie.NodeData{PathFragment: []byte(u[pos:]), Terminal: m.CommitToData([]byte(v))}
				if pos%2 == 1 {
					n.ChildCommitments = kids(0, nsym-1)
				}
				add(nodeCase{n: n, key: []byte(u[:pos]), fromVal: true, valStore: st}, "terminal from the value store: key %x at position %d, value of %d bytes", key, pos, vl)
			}
		}
	}
	// terminal taken from the key: every split of the key; lengths around the hash size
	for _, kl := range append(rng(1, 6, 1), 10, 16, 19, 20, 21, 31, 32, 33, 40, 64) {
		u := unpackRef(pat(kl, byte(kl+1)), cfg.Arity)
		for pos := 1; pos <= len(u); pos++ {
			if len(u) > 24 && pos > 8 && pos < len(u)-8 && pos%per != 0 {
				continue
			}
			n := &trie.NodeData{PathFragment: []byte(u[pos:]), Terminal: m.CommitToData([]byte(u))}
			if pos%2 == 1 {
				n.ChildCommitments = kids(0, 1)
			}
			for k := 0; k < 2; k++ { // the flag of the value store is irrelevant then
				add(nodeCase{n: n, key: []byte(u[:pos]), fromKey: true, fromVal: k == 1}, "terminal from the key %x at position %d, %v", u, pos, k)
			}
		}
	}
	return ret
}

func (c *Ctx) nodeRecords(cfg Cfg) {
	s, end := c.Begin("node records "+cfg.String(), "every child, pairs and sets of children, every fragment length, terminals of every size stored, from the key and from the value store x (every truncation, extensions, every split into two reads, every read and write failure)")
	defer end()
	m := cfg.NewModel()
	ncs := c.nodeCases(cfg, m)
	c.Par(len(ncs), func(i int) {
		nc := ncs[i]
		c.Case(s, nc.id, func() {
			before := nodeDesc(nc.n, m)
			atomic.AddInt64(&s.Transitions, checkCodec(nc.codec(cfg, m), !c.quick()))
			if nodeDesc(nc.n, m) != before {
				failf("the node was changed by writing it")
			}
			// the clone is an equal node
			if nodeDesc(nc.n.Clone(), m) != before {
				failf("the clone of the node is different")
			}
			// the record does not depend on the history of the map
			var b1, b2 bytes.Buffer
			_ = nc.n.Write(&b1, cfg.Arity, nc.fromKey, nc.fromVal)
			_ = nc.n.Clone().Write(&b2, cfg.Arity, nc.fromKey, nc.fromVal)
			if !bytes.Equal(b1.Bytes(), b2.Bytes()) {
				failf("the node and its clone have different records")
			}
			if nc.fromVal && !nc.fromKey {
				// without the value the record must be rejected
				if n, err := trie.NodeDataFromBytes(m, b1.Bytes(), nc.key, cfg.Arity, nil); err == nil {
					failf("read without a value store: %s", clip(nodeDesc(n, m)))
				}
				if n, err := trie.NodeDataFromBytes(m, b1.Bytes(), nc.key, cfg.Arity, NewStore()); err == nil {
					failf("read with the value missing: %s", clip(nodeDesc(n, m)))
				}
			}
		})
	})
}

// recordsOfTries: all records of the persisted tries are read back as the nodes of the trie in the memory which wrote
// them, and survive being written again
func (c *Ctx) recordsOfTries(cfg Cfg, name string, keys []string) {
	s, end := c.Begin(fmt.Sprintf("records of tries %s %s", name, cfg), fmt.Sprintf("all 3^%d assignments (absent/short/long), every record", len(keys)))
	defer end()
	n := 1
	for range keys {
		n *= 3
	}
	c.Par(n, func(i int) {
		content := map[string]string{}
		for j, x := 0, i; j < len(keys); j++ {
			switch x % 3 {
			case 1:
				content[keys[j]] = "1"
				if cfg.KeyOpt && keys[j] != "" {
					content[keys[j]] = keys[j]
				}
			case 2:
				content[keys[j]] = pat(40, byte(j))
			}
			x /= 3
		}
		c.Case(s, mapStr(content), func() {
			x := NewSUT(cfg)
			for _, k := range sortedKeys(content) {
				x.Apply(Op{'U', k, content[k]})
			}
			x.Apply(Op{T: 'P'})
			ref := expectFor(cfg, content).ref
			rd := x.reader()
			for pos := range ref.nodes {
				a, ok1 := x.tr.GetNode([]byte(pos))
				b, ok2 := rd.GetNode([]byte(pos))
				if !ok1 || !ok2 {
					failf("node at %x is missing", pos)
				}
				if nodeStr(a) != nodeStr(b) {
					failf("node at %x is %s, read back as %s", pos, nodeStr(a), nodeStr(b))
				}
				e, _ := trie.EncodeUnpackedBytes([]byte(pos), cfg.Arity)
				rec := x.ts.m[string(e)]
				nd, err := trie.NodeDataFromBytes(x.m, []byte(rec), []byte(pos), cfg.Arity, x.valueStore())
				if err != nil {
					failf("node at %x: %v", pos, err)
				}
				var want string
				r := ref.nodes[pos]
				wn := &trie.NodeData{PathFragment: []byte(r.pf), ChildCommitments: map[byte]trie.VCommitment{}}
				if r.term != nil {
					wn.Terminal = x.m.CommitToData([]byte(*r.term))
				}
				for ch, cn := range r.children {
					wn.ChildCommitments[ch] = ref.commitment(x.m, cn)
				}
				want = nodeDesc(wn, x.m)
				if got := nodeDesc(nd, x.m); got != want {
					failf("node at %x: record is read as %x, expected %x", pos, got, want)
				}
				for cut := 0; cut < len(rec); cut++ {
					if nd, err := trie.NodeDataFromBytes(x.m, []byte(rec[:cut]), []byte(pos), cfg.Arity, x.valueStore()); err == nil {
						failf("node at %x: record cut to %d of %d bytes is read as %x", pos, cut, len(rec), nodeDesc(nd, x.m))
					}
					if cfg.Kind == "kzg" && cut > 40 {
						cut += 6
					}
				}
				atomic.AddInt64(&s.Transitions, int64(len(rec)))
			}
		})
	})
}

func runC12(c *Ctx) {
	cfgs := []Cfg{b2b(a256, h160), b2b(a16, h256), b2b(a2, h160), b2b(a256, h256).thr(25), b2b(a16, h160).thr(1000), b2b(a2, h256).thr(10)}
	if !c.quick() {
		cfgs = append(allB2B(), b2b(a256, h256).thr(25), b2b(a16, h160).thr(1000), b2b(a2, h256).thr(10), b2b(a256, h160).thr(19), b2b(a16, h256).thr(33))
	}
	for _, cfg := range cfgs {
		c.nodeRecords(cfg)
	}
	c.nodeRecords(cfgKZG)
	for _, un := range sortedNames(universes6) {
		for _, cfg := range []Cfg{b2b(a256, h256).thr(5), b2b(a16, h160), b2b(a2, h160).thr(30), b2b(a16, h256).thr(100).opt(), b2b(a256, h160).opt()} {
			c.recordsOfTries(cfg, un, universes6[un])
		}
	}
	c.recordsOfTries(cfgKZG, "fork", universes3["fork"])
	c.recordsOfTries(cfgKZG, "chain", universes3["chain"])
}
