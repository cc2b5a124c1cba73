package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// observable view of a node store: everything that can be seen from outside

// probesFor extends the keys with keys around them: shorter, longer, diverging
func probesFor(keys []string) []string {
	var r []string
	r = append(r, keys...)
	r = append(r, "")
	for _, k := range keys {
		r = append(r, k+"z", k+"\x00", k+"\x00\x07")
		if len(k) > 0 {
			r = append(r, k[:len(k)-1], k[:len(k)-1]+string([]byte{k[len(k)-1] ^ 1}), string([]byte{k[0] ^ 0x80})+k[1:])
		}
	}
	return dedup(r)
}

// universe of the keys mentioned in a history
func keysOfHist(h []Op) []string {
	var r []string
	for _, o := range h {
		switch o.T {
		case 'U', 'u', 'D', 'd', 'E', 'I', 'g':
			r = append(r, o.K)
		}
	}
	return dedup(r)
}

func positionsFor(keys []string, a trie.PathArity) []string {
	var r []string
	r = append(r, "")
	for _, k := range keys {
		u := unpackRef(k, a)
		for i := 1; i <= len(u); i++ {
			if i > 40 && i < len(u)-8 {
				continue // of long keys, both ends; all nodes of the trie are added by the callers
			}
			r = append(r, u[:i])
		}
	}
	return dedup(r)
}

func termStr(t trie.TCommitment) string {
	if nilT(t) {
		return "-"
	}
	return string(t.Bytes())
}

func nodeStr(n trie.Node) string {
	var sb strings.Builder
	sb.WriteString(q(string(n.PathFragment())))
	sb.WriteByte('#')
	fmt.Fprintf(&sb, "%x", n.Key())
	sb.WriteByte('#')
	if nilT(n.Terminal()) {
		sb.WriteByte('-')
	} else {
		sb.WriteString(n.Terminal().String())
	}
	cc := n.ChildCommitments()
	for i := 0; i < 256; i++ {
		if c, ok := cc[byte(i)]; ok {
			fmt.Fprintf(&sb, ",%d:%x", i, commBytes(c))
		}
	}
	return sb.String()
}

// proofStr is a string representation of the proof of the key; panics inside are failures of the case
func proofStr(ns trie.NodeStore, key string) string {
	switch m := ns.Model().(type) {
	case *trie_blake2b.CommitmentModel:
		return string(m.Proof([]byte(key), ns).Bytes())
	case *trie_kzg_bn256.CommitmentModel:
		p, ok := m.ProofOfInclusion([]byte(key), ns)
		if !ok {
			return "no proof"
		}
		return string(p.Bytes())
	default:
		p := trie.GetProofGeneric(ns, trie.UnpackBytes([]byte(key), ns.PathArity()))
		s := p.Ending.String()
		if len(p.Path) == 0 {
			s = "empty"
		}
		for _, k := range p.Path {
			s += "/" + hx(k)
		}
		return s
	}
}

type view struct {
	root   []byte
	nodes  map[string]string // position -> node
	proofs map[string]string
}

// viewOf reads everything at the given positions and keys. Nodes and proofs of an uncommitted trie are not included
func viewOf(ns trie.NodeStore, positions, probes []string, withNodes bool) *view {
	v := &view{root: rootOf(ns), proofs: map[string]string{}}
	if withNodes {
		v.nodes = map[string]string{}
		for _, p := range positions {
			if n, ok := ns.GetNode([]byte(p)); ok {
				v.nodes[p] = nodeStr(n)
			}
		}
	}
	for _, k := range probes {
		v.proofs[k] = proofStr(ns, k)
	}
	return v
}

func diffViews(what string, a, b *view) {
	if !bytes.Equal(a.root, b.root) {
		failf("%s: root %s, expected %s", what, hx(a.root), hx(b.root))
	}
	if a.nodes != nil && b.nodes != nil {
		for p, n := range b.nodes {
			if a.nodes[p] != n {
				failf("%s: node at path %x is [%s], expected [%s]", what, p, a.nodes[p], n)
			}
		}
		for p, n := range a.nodes {
			if _, ok := b.nodes[p]; !ok {
				failf("%s: unexpected node at path %x: [%s]", what, p, n)
			}
		}
	}
	for k, p := range b.proofs {
		if w, ok := a.proofs[k]; ok && w != p {
			failf("%s: proof of the key %s is %x, expected %x", what, q(k), w, p)
		}
	}
}

// expectedView is the memoized view of the fresh trie with the content
type viewKey struct {
	e  *expect
	id string
}

func expectedView(cfg Cfg, content map[string]string, keys []string) *view {
	e := expectFor(cfg, content)
	id := strings.Join(keys, "\x00\xfe")
	e.mu.Lock()
	defer e.mu.Unlock()
	if v, ok := e.views[id]; ok {
		return v
	}
	v := viewOf(e.tr, positionsOf(e, keys, cfg), probesFor(keys), true)
	if e.views == nil {
		e.views = map[string]*view{}
	}
	e.views[id] = v
	n := int64(0)
	for k, x := range v.nodes {
		n += int64(len(k) + len(x) + 64)
	}
	for k, x := range v.proofs {
		n += int64(len(k) + len(x) + 64)
	}
	expGrow(n)
	return v
}

// positionsOf are all positions of the nodes of the tree and positions around the keys
func positionsOf(e *expect, keys []string, cfg Cfg) []string {
	r := positionsFor(keys, cfg.Arity)
	for p := range e.ref.nodes {
		r = append(r, p)
	}
	return dedup(r)
}

// sutView is the view of a trie or reader which is supposed to have the content
func sutView(ns trie.NodeStore, cfg Cfg, keys []string, content map[string]string) *view {
	return viewOf(ns, positionsOf(expectFor(cfg, content), keys, cfg), probesFor(keys), true)
}

func allOps(ops []Op) []string { return keysOfHist(ops) }

// eqStore compares the records of the store with the records of a fresh trie with the content
func eqStore(s *SUT, content map[string]string, what string) {
	want := expectFor(s.cfg, content).store
	if !eqMap(s.ts.m, want) {
		failf("%s: content %s: the store is %s, a fresh trie has %s", what, mapStr(content), mapStr(s.ts.m), mapStr(want))
	}
}
