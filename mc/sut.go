package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// Op is one API call
//
//	U key value   Update          I key   InsertKeyCommitment
//	D key         Delete          E key   Update with empty value
//	C Commit      P Commit + PersistMutations (values are written to the value store at the same time)
//	p PersistMutations without ClearCache, only if committed
//	X ClearCache  R reopen from the store  L replace by a Clone  F persist and clear cache
//	g read: GetNode, root and proof of the key
//	r read of the kind V, see readKind
//	T take a clone; afterwards the operations with the high bit set are those of the clone
//	q persist into a copy of the store and check it
type Op struct {
	T byte
	K string
	V string
}

func (o Op) String() string {
	if o.T&twinOp != 0 {
		o.T &^= twinOp
		return "clone." + o.String()
	}
	switch o.T {
	case 'U', 'u':
		return fmt.Sprintf("%c(%s,%s)", o.T, q(o.K), q(o.V))
	case 'r':
		return fmt.Sprintf("r%s(%s)", o.V, q(o.K))
	case 'D', 'E', 'I', 'g', 'd':
		return fmt.Sprintf("%c(%s)", o.T, q(o.K))
	}
	return string(o.T)
}

const twinOp = 0x80

func histStr(h []Op) string {
	s := make([]string, len(h))
	for i, o := range h {
		s[i] = o.String()
	}
	return strings.Join(s, " ")
}

// SUT is the real trie together with its reference model
type SUT struct {
	cfg       Cfg
	m         trie.CommitmentModel
	tr        *trie.Trie
	ts, vs    *Store
	content   map[string]string // after all operations
	committed map[string]string // at the last commit
	persisted map[string]string // at the last persist
	dirty     bool              // operations since last commit
	poison    bool              // overwrite argument buffers after each call
	twin      *SUT              // clone
	alwaysVS  bool              // value store given also where it is not needed
}

func NewSUT(cfg Cfg) *SUT {
	s := &SUT{cfg: cfg, m: cfg.NewModel(), ts: NewStore(), vs: NewStore(),
		content: map[string]string{}, committed: map[string]string{}, persisted: map[string]string{}}
	s.reopen()
	return s
}

// valueStore returns the value store passed to the trie. It is nil where the trie must not need it
func (s *SUT) valueStore() trie.KVReader {
	if s.cfg.Thr == 0 && !s.alwaysVS {
		return nil
	}
	return s.vs
}

func (s *SUT) reopen() {
	if s.cfg.KeyOpt {
		s.tr = trie.New(s.m, s.ts, s.valueStore(), true)
	} else {
		s.tr = trie.New(s.m, s.ts, s.valueStore())
	}
}

func (s *SUT) reader() *trie.TrieReader {
	return trie.NewTrieReader(s.m, s.ts, s.valueStore())
}

func (s *SUT) buf(x string) []byte { return []byte(x) }

func (s *SUT) spoil(b ...[]byte) {
	if s.poison {
		for _, x := range b {
			for i := range x {
				x[i] ^= 0xA5
			}
		}
	}
}

// Enabled tells if the operation may be applied by the rules of use of the API
func (s *SUT) Enabled(o Op) bool {
	if o.T&twinOp != 0 {
		o.T &^= twinOp
		return s.twin != nil && s.twin.Enabled(o)
	}
	if s.ts.frozen && (o.T == 'p' || o.T == 'P' || o.T == 'F') {
		return false // the store is common with the other trie
	}
	switch o.T {
	case 'T':
		return s.twin == nil && !s.ts.frozen
	case 'q':
		return !s.dirty
	case 'p', 'F':
		return !s.dirty
	case 'I':
		return o.K != ""
	case 'R':
		return true
	}
	return true
}

func (s *SUT) Apply(o Op) {
	if o.T&twinOp != 0 {
		o.T &^= twinOp
		s.twin.Apply(o)
		return
	}
	switch o.T {
	case 'T':
		s.twin = s.takeClone()
	case 'q':
		s.persistCopy()
	case 'U':
		k, v := s.buf(o.K), s.buf(o.V)
		s.tr.Update(k, v)
		s.spoil(k, v)
		if o.V == "" {
			delete(s.content, o.K)
		} else {
			s.content[o.K] = o.V
		}
		s.dirty = true
	case 'u': // the same through UpdateStr
		s.tr.UpdateStr(o.K, o.V)
		if o.V == "" {
			delete(s.content, o.K)
		} else {
			s.content[o.K] = o.V
		}
		s.dirty = true
	case 'E':
		k := s.buf(o.K)
		s.tr.Update(k, nil)
		s.spoil(k)
		delete(s.content, o.K)
		s.dirty = true
	case 'D':
		k := s.buf(o.K)
		s.tr.Delete(k)
		s.spoil(k)
		delete(s.content, o.K)
		s.dirty = true
	case 'd':
		s.tr.DeleteStr(o.K)
		delete(s.content, o.K)
		s.dirty = true
	case 'I':
		k := s.buf(o.K)
		s.tr.InsertKeyCommitment(k)
		s.spoil(k)
		s.content[o.K] = o.K
		s.dirty = true
	case 'C':
		s.commit()
	case 'P':
		s.commit()
		s.persist()
	case 'p':
		s.persist()
	case 'F':
		s.persist()
		s.tr.ClearCache()
	case 'X':
		s.tr.ClearCache()
		s.rollback()
	case 'R':
		s.reopen()
		s.rollback()
	case 'L':
		s.tr = s.tr.Clone()
	case 'g':
		s.read(o.K)
	case 'r':
		s.readKind(o.V[0], o.K)
	default:
		panic("harness error: wrong op")
	}
}

func (s *SUT) commit() {
	s.tr.Commit()
	s.committed = cp(s.content)
	s.dirty = false
}

func (s *SUT) persist() {
	w := s.ts.writes
	n := s.tr.PersistMutations(s.ts)
	if n != s.ts.writes-w {
		failf("PersistMutations returned %d but made %d writes", n, s.ts.writes-w)
	}
	s.vs.m = cp(s.committed)
	s.persisted = cp(s.committed)
}

// takeClone clones the trie. The stores are common and are not written from now on
func (s *SUT) takeClone() *SUT {
	s.ts.frozen, s.vs.frozen = true, true
	return &SUT{cfg: s.cfg, m: s.m, tr: s.tr.Clone(), ts: s.ts, vs: s.vs, content: cp(s.content), committed: cp(s.committed),
		persisted: cp(s.persisted), dirty: s.dirty, poison: s.poison}
}

// persistCopy persists into a copy of the store, and checks the result
func (s *SUT) persistCopy() {
	x := &SUT{cfg: s.cfg, m: s.m, ts: s.ts.Copy(), vs: &Store{m: cp(s.committed)}}
	if n := s.tr.PersistMutations(x.ts); n != x.ts.writes {
		failf("PersistMutations returned %d but made %d writes", n, x.ts.writes)
	}
	eqStore(x, s.committed, "persisted")
	if r, e := rootOf(x.reader()), expectFor(s.cfg, s.committed).root; !bytes.Equal(r, e) {
		failf("content %s: root of the persisted trie is %s, expected %s", mapStr(s.committed), hx(r), hx(e))
	}
}

func (s *SUT) rollback() {
	s.content = cp(s.persisted)
	s.committed = cp(s.persisted)
	s.dirty = false
}

// read performs all kinds of reading around the key
func (s *SUT) read(key string) {
	k := s.buf(key)
	uk := trie.UnpackBytes(k, s.cfg.Arity)
	for _, x := range [][]byte{nil, uk} {
		x = append([]byte{}, x...)
		s.tr.GetNode(x)
		s.spoil(x)
	}
	if !s.dirty {
		trie.RootCommitment(s.tr)
		_ = s.tr.Info()
		switch m := s.m.(type) {
		case *trie_blake2b.CommitmentModel:
			m.Proof(k, s.tr)
		case *trie_kzg_bn256.CommitmentModel:
			m.ProofOfInclusion(k, s.tr)
		default:
			trie.GetProofGeneric(s.tr, uk)
		}
	} else {
		trie.GetProofGeneric(s.tr, uk)
	}
	s.spoil(k)
}

// Canon identifies the state: the real trie, the stores, and the reference model
func (s *SUT) Canon() [16]byte {
	if t := s.twin; t != nil {
		return canonHash(s.tr, t.tr, mapKey(s.ts.m), mapKey(s.vs.m), mapKey(s.content), mapKey(s.committed), mapKey(s.persisted), s.dirty,
			mapKey(t.content), mapKey(t.committed), t.dirty)
	}
	return canonHash(s.tr, mapKey(s.ts.m), mapKey(s.vs.m), mapKey(s.content), mapKey(s.committed), mapKey(s.persisted), s.dirty)
}

func commBytes(c trie.VCommitment) []byte {
	if eq, concl := trie.CheckNils(c, nil); concl && eq {
		return nil
	}
	return c.Bytes()
}

func rootOf(ns trie.NodeStore) []byte { return commBytes(trie.RootCommitment(ns)) }

// ---- memoized expected results of a content, from a fresh trie

type expect struct {
	root  []byte
	store map[string]string // persisted nodes
	ref   *refTrie
	tr    *trie.Trie // fresh, committed, not persisted (used read-only, guarded by mu)
	mu    sync.Mutex
	views map[string]*view
}

var expCache sync.Map // cfg string + content -> *expect

// expGrow drops the memoized results when they take too much memory
func expGrow(n int64) {
	if atomic.AddInt64(&expBytes, n) > 2<<30 {
		expCache.Clear()
		atomic.StoreInt64(&expBytes, 0)
	}
}

var expBytes int64

func insertOrder(m map[string]string) []string { return sortedKeys(m) }

func expectFor(cfg Cfg, content map[string]string) *expect {
	key := cfg.String() + "\x00" + mapKey(content)
	if e, ok := expCache.Load(key); ok {
		return e.(*expect)
	}
	e := &expect{}
	m := cfg.NewModel()
	e.tr = newTrie(cfg, m, NewStore(), NewStore())
	for _, k := range insertOrder(content) {
		e.tr.Update([]byte(k), []byte(content[k]))
	}
	e.tr.Commit()
	st := NewStore()
	e.tr.PersistMutations(st)
	e.store = st.m
	e.ref = buildRef(content, cfg)
	e.root = commBytes(e.ref.commitment(m, e.ref.root))
	n := int64(len(key))
	for k, v := range e.store {
		n += 20 * int64(len(k)+len(v)+200) // records, nodes of the tree, cached nodes
	}
	expGrow(n)
	a, _ := expCache.LoadOrStore(key, e)
	return a.(*expect)
}

func newTrie(cfg Cfg, m trie.CommitmentModel, ts, vs *Store) *trie.Trie {
	var v trie.KVReader
	if cfg.Thr != 0 {
		v = vs
	}
	if cfg.KeyOpt {
		return trie.New(m, ts, v, true)
	}
	return trie.New(m, ts, v)
}

// ---- reference radix tree

type refNode struct {
	pos      string // unpacked position in the tree
	pf       string
	term     *string // value (terminal data)
	children map[byte]*refNode
}

type refTrie struct {
	root  *refNode
	nodes map[string]*refNode // by position
	cfg   Cfg
}

func unpackRef(k string, a trie.PathArity) string {
	var sb strings.Builder
	switch a {
	case a256:
		return k
	case a16:
		for i := 0; i < len(k); i++ {
			sb.WriteByte(k[i] >> 4)
			sb.WriteByte(k[i] & 15)
		}
	case a2:
		for i := 0; i < len(k); i++ {
			for j := 7; j >= 0; j-- {
				sb.WriteByte(k[i] >> uint(j) & 1)
			}
		}
	}
	return sb.String()
}

func buildRef(content map[string]string, cfg Cfg) *refTrie {
	t := &refTrie{nodes: map[string]*refNode{}, cfg: cfg}
	if len(content) == 0 {
		return t
	}
	un := map[string]string{}
	var ks []string
	for _, k := range sortedKeys(content) {
		u := unpackRef(k, cfg.Arity)
		v := content[k]
		if cfg.KeyOpt && v == k {
			v = u
		}
		un[u] = v
		ks = append(ks, u)
	}
	t.root = t.build("", ks, un)
	return t
}

func (t *refTrie) build(pos string, ks []string, un map[string]string) *refNode {
	// all ks have prefix pos
	lcp := ks[0]
	for _, k := range ks[1:] {
		i := 0
		for i < len(lcp) && i < len(k) && lcp[i] == k[i] {
			i++
		}
		lcp = lcp[:i]
	}
	n := &refNode{pos: pos, pf: lcp[len(pos):], children: map[byte]*refNode{}}
	groups := map[byte][]string{}
	for _, k := range ks {
		if k == lcp {
			v := un[k]
			n.term = &v
			continue
		}
		groups[k[len(lcp)]] = append(groups[k[len(lcp)]], k)
	}
	for c, g := range groups {
		n.children[c] = t.build(lcp+string([]byte{c}), g, un)
	}
	t.nodes[pos] = n
	return n
}

// commitment computes the commitment of the node bottom-up, with the node commitment function of the model
func (t *refTrie) commitment(m trie.CommitmentModel, n *refNode) trie.VCommitment {
	if n == nil {
		return nil
	}
	nd := &trie.NodeData{PathFragment: []byte(n.pf), ChildCommitments: map[byte]trie.VCommitment{}}
	for c, ch := range n.children {
		nd.ChildCommitments[c] = t.commitment(m, ch)
	}
	if n.term != nil {
		nd.Terminal = m.CommitToData([]byte(*n.term))
	}
	return m.CalcNodeCommitment(nd)
}

// checkStructure walks the trie from the root through GetNode and compares it with the reference tree
func checkStructure(ns trie.NodeStore, content map[string]string, cfg Cfg) {
	m := ns.Model()
	ref := expectFor(cfg, content).ref
	var walk func(r *refNode) trie.VCommitment
	visited := 0
	walk = func(r *refNode) trie.VCommitment {
		visited++
		n, ok := ns.GetNode([]byte(r.pos))
		if !ok {
			failf("content %s: node at path %x is missing", mapStr(content), r.pos)
		}
		if string(n.PathFragment()) != r.pf {
			failf("content %s: node at path %x has path fragment %x, expected %x", mapStr(content), r.pos, n.PathFragment(), r.pf)
		}
		if string(n.Key()) != r.pos {
			failf("content %s: node at path %x reports key %x", mapStr(content), r.pos, n.Key())
		}
		var term trie.TCommitment
		if r.term != nil {
			term = m.CommitToData([]byte(*r.term))
		}
		if nilT(term) != nilT(n.Terminal()) || !nilT(term) && !m.EqualCommitments(term, n.Terminal()) {
			failf("content %s: node at path %x has terminal %v, expected %v", mapStr(content), r.pos, n.Terminal(), term)
		}
		cc := n.ChildCommitments()
		if len(cc) != len(r.children) {
			failf("content %s: node at path %x has %d children, expected %d", mapStr(content), r.pos, len(cc), len(r.children))
		}
		for c, ch := range r.children {
			cm, ok := cc[c]
			if !ok || nilV(cm) {
				failf("content %s: node at path %x has no commitment to child %d", mapStr(content), r.pos, c)
			}
			calc := walk(ch)
			if !m.EqualCommitments(cm, calc) {
				failf("content %s: node at path %x holds a stale commitment to child %d", mapStr(content), r.pos, c)
			}
		}
		return m.CalcNodeCommitment(&trie.NodeData{PathFragment: n.PathFragment(), ChildCommitments: cc, Terminal: n.Terminal()})
	}
	if ref.root == nil {
		if _, ok := ns.GetNode(nil); ok {
			failf("the content is empty but the trie has a root node")
		}
		return
	}
	c := walk(ref.root)
	if !m.EqualCommitments(c, trie.RootCommitment(ns)) {
		failf("root commitment differs from the commitment of the root node")
	}
}

func nilT(t trie.TCommitment) bool { e, c := trie.CheckNils(t, nil); return c && e }
func nilV(t trie.VCommitment) bool { e, c := trie.CheckNils(t, nil); return c && e }

// checkStore compares the store with the canonical set of node records
func checkStore(st *Store, content map[string]string, cfg Cfg) {
	e := expectFor(cfg, content)
	if len(st.m) != len(e.ref.nodes) {
		failf("content %s: store has %d records, the minimal tree has %d nodes: %s", mapStr(content), len(st.m), len(e.ref.nodes), mapStr(st.m))
	}
	for pos := range e.ref.nodes {
		enc, err := trie.EncodeUnpackedBytes([]byte(pos), cfg.Arity)
		if err != nil {
			failf("encode path %x: %v", pos, err)
		}
		if _, ok := st.m[string(enc)]; !ok {
			failf("content %s: record of the node at path %x is missing in the store", mapStr(content), pos)
		}
	}
}

// ---- proofs

func commitRef(data string, hs trie_blake2b.HashSize) []byte {
	return trie_blake2b.CommitToDataRaw([]byte(data), hs)
}

// checkProof generates and validates the proof of the key over the committed state ns
func checkProof(ns trie.NodeStore, cfg Cfg, content map[string]string, root []byte, key string, values []string) string {
	switch m := ns.Model().(type) {
	case *trie_blake2b.CommitmentModel:
		return checkProofB2B(m, ns, cfg, content, root, key, values)
	case *trie_kzg_bn256.CommitmentModel:
		p, ok := m.ProofOfInclusion([]byte(key), ns)
		v, present := content[key]
		if ok != present {
			failf("content %s key %s: proof of inclusion produced=%v, key present=%v", mapStr(content), q(key), ok, present)
		}
		if ok {
			rc := trie.RootCommitment(ns)
			if err := p.Validate(rc, []byte(v)); err != nil {
				failf("content %s key %s: proof not valid: %v", mapStr(content), q(key), err)
			}
			return "kzg inclusion"
		}
		return "kzg absent"
	default:
		p := trie.GetProofGeneric(ns, trie.UnpackBytes([]byte(key), cfg.Arity))
		_, present := content[key]
		if present && p.Ending != trie.EndingTerminal {
			failf("content %s: generic proof of the present key %s ends with %s", mapStr(content), q(key), p.Ending)
		}
		if !present && len(p.Path) > 0 && p.Ending == trie.EndingTerminal {
			n, ok := ns.GetNode(p.Path[len(p.Path)-1])
			if !ok || !nilT(n.Terminal()) {
				failf("content %s: generic proof of the absent key %s ends at a terminal", mapStr(content), q(key))
			}
		}
		return "generic " + p.Ending.String()
	}
}

func checkProofB2B(m *trie_blake2b.CommitmentModel, ns trie.NodeStore, cfg Cfg, content map[string]string, root []byte, key string, values []string) string {
	p := m.Proof([]byte(key), ns)
	if p == nil {
		failf("content %s key %s: no proof", mapStr(content), q(key))
	}
	if err := trie_blake2b_verify.Validate(p, root); err != nil {
		failf("content %s key %s: generated proof is not valid: %v", mapStr(content), q(key), err)
	}
	pk, pt := trie_blake2b_verify.MustKeyWithTerminal(p)
	v, present := content[key]
	if len(p.Path) > 0 && string(pk) != unpackRef(key, cfg.Arity) {
		failf("content %s key %s: proof is about the key %x", mapStr(content), q(key), pk)
	}
	if trie_blake2b_verify.IsProofOfAbsence(p) == present {
		failf("content %s key %s: present=%v but proof of absence=%v", mapStr(content), q(key), present, !present)
	}
	if present {
		data := v
		keyCommitment := cfg.KeyOpt && v == key
		if keyCommitment {
			data = unpackRef(key, cfg.Arity)
		}
		if !bytes.Equal(pt, commitRef(data, cfg.HS)) {
			failf("content %s key %s: proof has terminal %x, expected commitment to %s", mapStr(content), q(key), pt, q(data))
		}
		if err := trie_blake2b_verify.ValidateWithValue(p, root, []byte(data)); err != nil {
			failf("content %s key %s: proof does not validate with its value: %v", mapStr(content), q(key), err)
		}
	} else if pt != nil {
		failf("content %s key %s: proof of absence has terminal %x", mapStr(content), q(key), pt)
	}
	for _, w := range values {
		if present && (w == v || cfg.KeyOpt && v == key && w == unpackRef(key, cfg.Arity)) {
			continue
		}
		if err := trie_blake2b_verify.ValidateWithValue(p, root, []byte(w)); err == nil {
			failf("content %s key %s: proof validates with the wrong value %s", mapStr(content), q(key), q(w))
		}
	}
	// commitment to the terminal node
	ct := trie_blake2b_verify.CommitmentToTheTerminalNode(p)
	ref := expectFor(cfg, content).ref
	if len(p.Path) == 0 {
		if ref.root != nil || ct != nil {
			failf("content %s key %s: empty proof path", mapStr(content), q(key))
		}
		return "empty"
	}
	pos, kind := ref.locate(unpackRef(key, cfg.Arity))
	n, ok := ns.GetNode([]byte(pos))
	if !ok {
		failf("content %s: node at path %x is missing", mapStr(content), pos)
	}
	if want := m.CalcNodeCommitment(&trie.NodeData{PathFragment: n.PathFragment(), ChildCommitments: n.ChildCommitments(), Terminal: n.Terminal()}); !bytes.Equal(want.Bytes(), ct) {
		failf("content %s key %s: commitment to the terminal node is %x, the node at path %x has %x", mapStr(content), q(key), ct, pos, want.Bytes())
	}
	if pl := ref.depth(pos); pl != len(p.Path) {
		failf("content %s key %s: proof path has %d elements, expected %d", mapStr(content), q(key), len(p.Path), pl)
	}
	if _, err := trie_blake2b.ProofFromBytes(p.Bytes()); err != nil {
		failf("content %s key %s: proof does not decode: %v", mapStr(content), q(key), err)
	}
	return kind
}

// locate returns position of the node where the search for the unpacked key ends
func (t *refTrie) locate(u string) (string, string) {
	n := t.root
	for {
		tail := u[len(n.pos):]
		if tail == n.pf {
			if n.term != nil {
				return n.pos, "inclusion"
			}
			return n.pos, "absent: no terminal"
		}
		if !strings.HasPrefix(tail, n.pf) {
			if strings.HasPrefix(n.pf, tail) {
				return n.pos, "absent: inside path fragment"
			}
			return n.pos, "absent: diverging path fragment"
		}
		ch := n.children[tail[len(n.pf)]]
		if ch == nil {
			return n.pos, "absent: no child"
		}
		n = ch
	}
}

func (t *refTrie) depth(pos string) int {
	d := 1
	n := t.root
	for n.pos != pos {
		n = n.children[pos[len(n.pos)+len(n.pf)]]
		d++
	}
	return d
}

func sha(b []byte) string { h := sha256.Sum256(b); return fmt.Sprintf("%x", h[:6]) }
