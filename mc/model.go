package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"strconv"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// q prints a key or value: printable ASCII quoted, other as hex; long strings are abbreviated
func q(s string) string {
	pr := true
	for i := 0; i < len(s); i++ {
		if s[i] < 0x21 || s[i] > 0x7e {
			pr = false
		}
	}
	if len(s) > 40 {
		h := sha256.Sum256([]byte(s))
		return fmt.Sprintf("<%d bytes %x>", len(s), h[:4])
	}
	if pr {
		return strconv.Quote(s)
	}
	return "0x" + hex.EncodeToString([]byte(s))
}

// Cfg is one configuration of the trie
type Cfg struct {
	Kind   string // b2b, kzg, sym
	Arity  trie.PathArity
	HS     trie_blake2b.HashSize
	Thr    int
	KeyOpt bool
}

func (c Cfg) String() string {
	s := fmt.Sprintf("%s/a%d", c.Kind, int(c.Arity)+1)
	if c.Kind == "b2b" {
		s += fmt.Sprintf("/h%d", c.HS)
	}
	if c.Thr != 0 {
		s += fmt.Sprintf("/thr%d", c.Thr)
	}
	if c.KeyOpt {
		s += "/keyopt"
	}
	return s
}

func (c Cfg) NewModel() trie.CommitmentModel {
	switch c.Kind {
	case "b2b":
		if c.Thr != 0 {
			return trie_blake2b.New(c.Arity, c.HS, c.Thr)
		}
		return trie_blake2b.New(c.Arity, c.HS)
	case "kzg":
		return trie_kzg_bn256.Model
	case "sym":
		return &symModel{c.Arity, c.Thr}
	}
	panic("harness error: wrong kind")
}

func b2b(a trie.PathArity, h trie_blake2b.HashSize) Cfg { return Cfg{Kind: "b2b", Arity: a, HS: h} }

var (
	a256, a16, a2 = trie.PathArity256, trie.PathArity16, trie.PathArity2
	h160, h256    = trie_blake2b.HashSize160, trie_blake2b.HashSize256
	cfgKZG        = Cfg{Kind: "kzg", Arity: a256}
	allArity      = []trie.PathArity{a256, a16, a2}
)

// allB2B enumerates arities x hash sizes
func allB2B() []Cfg {
	var ret []Cfg
	for _, a := range allArity {
		for _, h := range []trie_blake2b.HashSize{h160, h256} {
			ret = append(ret, b2b(a, h))
		}
	}
	return ret
}

func (c Cfg) thr(t int) Cfg { c.Thr = t; return c }
func (c Cfg) opt() Cfg      { c.KeyOpt = true; return c }

// ---- symbolic model: an ideal, injective vector commitment. It exercises the generic trie logic independently of
// the cryptography of the real models. Vector commitment = sha256 of an injective encoding of the node,
// terminal commitment = the data itself

type symModel struct {
	arity trie.PathArity
	thr   int
}

type symV struct{ b []byte }
type symT struct {
	b      []byte
	costly bool
}

func (v *symV) Read(r io.Reader) error {
	v.b = make([]byte, 32)
	_, err := io.ReadFull(r, v.b)
	return err
}
func (v *symV) Write(w io.Writer) error {
	_, err := w.Write(v.b)
	return err
}
func (v *symV) Bytes() []byte  { return append([]byte{}, v.b...) }
func (v *symV) String() string { return hex.EncodeToString(v.b) }
func (v *symV) Clone() trie.VCommitment {
	return &symV{append([]byte{}, v.b...)}
}
func (t *symT) Read(r io.Reader) error {
	var h [5]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return err
	}
	n := binary.LittleEndian.Uint32(h[:4])
	if n > 1<<24 || h[4] > 1 {
		return errors.New("sym: wrong terminal")
	}
	t.b = make([]byte, n)
	t.costly = h[4] == 1
	_, err := io.ReadFull(r, t.b)
	return err
}
func (t *symT) Write(w io.Writer) error {
	var h [5]byte
	binary.LittleEndian.PutUint32(h[:4], uint32(len(t.b)))
	if t.costly {
		h[4] = 1
	}
	if _, err := w.Write(h[:]); err != nil {
		return err
	}
	_, err := w.Write(t.b)
	return err
}
func (t *symT) Bytes() []byte  { return trie.MustBytes(t) }
func (t *symT) String() string { return hex.EncodeToString(t.b) }
func (t *symT) Clone() trie.TCommitment {
	return &symT{append([]byte{}, t.b...), t.costly}
}

func (m *symModel) PathArity() trie.PathArity { return m.arity }
func (m *symModel) EqualCommitments(c1, c2 trie.Serializable) bool {
	if eq, concl := trie.CheckNils(c1, c2); concl {
		return eq
	}
	t1, ok1 := c1.(*symT)
	t2, ok2 := c2.(*symT)
	if ok1 && ok2 {
		return string(t1.b) == string(t2.b)
	}
	v1, ok1 := c1.(*symV)
	v2, ok2 := c2.(*symV)
	if ok1 && ok2 {
		return string(v1.b) == string(v2.b)
	}
	return false
}
func (m *symModel) NewVectorCommitment() trie.VCommitment   { return &symV{} }
func (m *symModel) NewTerminalCommitment() trie.TCommitment { return &symT{} }
func (m *symModel) CommitToData(d []byte) trie.TCommitment {
	if len(d) == 0 {
		return nil
	}
	return &symT{append([]byte{}, d...), len(d) > m.thr}
}
func (m *symModel) calc(n *trie.NodeData) trie.VCommitment {
	if len(n.ChildCommitments) == 0 && n.Terminal == nil {
		return nil
	}
	h := sha256.New()
	var l [4]byte
	binary.LittleEndian.PutUint32(l[:], uint32(len(n.PathFragment)))
	h.Write(l[:])
	h.Write(n.PathFragment)
	if n.Terminal == nil {
		h.Write([]byte{0})
	} else {
		t := n.Terminal.(*symT)
		binary.LittleEndian.PutUint32(l[:], uint32(len(t.b)))
		h.Write([]byte{1})
		h.Write(l[:])
		h.Write(t.b)
	}
	for i := 0; i < 256; i++ {
		if c, ok := n.ChildCommitments[byte(i)]; ok {
			h.Write([]byte{byte(i)})
			h.Write(c.(*symV).b)
		}
	}
	return &symV{h.Sum(nil)}
}
func (m *symModel) CalcNodeCommitment(n *trie.NodeData) trie.VCommitment { return m.calc(n) }
func (m *symModel) UpdateNodeCommitment(mut *trie.NodeData, childUpdates map[byte]trie.VCommitment, _ bool, terminal trie.TCommitment, update *trie.VCommitment) {
	for i, u := range childUpdates {
		if u == nil {
			delete(mut.ChildCommitments, i)
		} else {
			mut.ChildCommitments[i] = u
		}
	}
	mut.Terminal = terminal
	if len(mut.ChildCommitments) == 0 && mut.Terminal == nil {
		return
	}
	if update != nil {
		*update = m.calc(mut)
	}
}
func (m *symModel) ForceStoreTerminalWithNode(c trie.TCommitment) bool { return c.(*symT).costly }
func (m *symModel) Description() string                                { return "symbolic" }
func (m *symModel) ShortName() string                                  { return "sym" }
