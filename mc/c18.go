package main

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sync/atomic"
	"time"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/pairing/bn256"
)

func init() {
	register("C18", "exploration", runC18)
}

type setup = trie_kzg_bn256.TrustedSetup

func scal(suite *bn256.Suite, x *big.Int) kyber.Scalar {
	return suite.G1().Scalar().SetBytes(new(big.Int).Mod(x, bn256.Order).Bytes())
}

func bigOf(s kyber.Scalar) *big.Int {
	b, err := s.MarshalBinary()
	if err != nil {
		failf("%v", err)
	}
	return new(big.Int).SetBytes(b)
}

const kzgFactor = 5743

// rootOfUnity returns the n-th root of unity of the order 5743, computed independently
func rootOfUnity(n int64) *big.Int {
	e := new(big.Int).Sub(bn256.Order, big.NewInt(1))
	e.Div(e, big.NewInt(kzgFactor))
	for c := int64(2); ; c++ {
		r := new(big.Int).Exp(big.NewInt(c), e, bn256.Order)
		if r.Cmp(big.NewInt(1)) != 0 {
			return r.Exp(r, big.NewInt(n), bn256.Order)
		}
	}
}

// refSetup is the setup by the definition
type refSetup struct {
	d      int
	omega  *big.Int // 0 means the natural domain
	dom    []*big.Int
	secret *big.Int
}

func newRefSetup(d int, omega, secret *big.Int) *refSetup {
	r := &refSetup{d: d, omega: omega, secret: new(big.Int).Mod(secret, bn256.Order)}
	for i := 0; i < d; i++ {
		if omega.Sign() == 0 {
			r.dom = append(r.dom, big.NewInt(int64(i)))
		} else {
			r.dom = append(r.dom, new(big.Int).Exp(omega, big.NewInt(int64(i)), bn256.Order))
		}
	}
	return r
}

func mulmod(a, b *big.Int) *big.Int {
	r := new(big.Int).Mul(a, b)
	return r.Mod(r, bn256.Order)
}

func submod(a, b *big.Int) *big.Int {
	r := new(big.Int).Sub(a, b)
	return r.Mod(r, bn256.Order)
}

func (r *refSetup) aprime(m int) *big.Int {
	x := big.NewInt(1)
	for i := range r.dom {
		if i != m {
			x = mulmod(x, submod(r.dom[m], r.dom[i]))
		}
	}
	return x
}

func (r *refSetup) lagrange(m int) *big.Int {
	x := big.NewInt(1)
	for i := range r.dom {
		if i != m {
			x = mulmod(x, submod(r.secret, r.dom[i]))
		}
	}
	return mulmod(x, new(big.Int).ModInverse(r.aprime(m), bn256.Order))
}

// check compares all public parts of the setup with the definition. every limits the number of the points to check
func (r *refSetup) check(what string, x *setup, every int) {
	if int(x.D) != r.d || len(x.LagrangeBasis) != r.d || len(x.Diff2) != r.d || len(x.Domain) != r.d || len(x.AprimeDomainI) != r.d {
		failf("%s: sizes %d, %d, %d, %d, %d, expected %d", what, x.D, len(x.LagrangeBasis), len(x.Diff2), len(x.Domain), len(x.AprimeDomainI), r.d)
	}
	if bigOf(x.Omega).Cmp(r.omega) != 0 {
		failf("%s: omega is %v, expected %v", what, bigOf(x.Omega), r.omega)
	}
	if bigOf(x.ZeroG1).Sign() != 0 || bigOf(x.OneG1).Cmp(big.NewInt(1)) != 0 {
		failf("%s: wrong constants", what)
	}
	s := x.Suite
	for i := 0; i < r.d; i++ {
		if bigOf(x.Domain[i]).Cmp(r.dom[i]) != 0 {
			failf("%s: element %d of the domain is %v, expected %v", what, i, bigOf(x.Domain[i]), r.dom[i])
		}
		if i%every != 0 && i != r.d-1 {
			continue
		}
		if bigOf(x.AprimeDomainI[i]).Cmp(r.aprime(i)) != 0 {
			failf("%s: A' of element %d of the domain is %v, expected %v", what, i, bigOf(x.AprimeDomainI[i]), r.aprime(i))
		}
		if !x.LagrangeBasis[i].Equal(s.G1().Point().Mul(scal(s, r.lagrange(i)), nil)) {
			failf("%s: wrong element %d of the Lagrange basis", what, i)
		}
		if !x.Diff2[i].Equal(s.G2().Point().Mul(scal(s, submod(r.secret, r.dom[i])), nil)) {
			failf("%s: wrong difference %d", what, i)
		}
	}
}

func sameSetup(what string, a, b *setup) {
	if a.D != b.D || !a.Omega.Equal(b.Omega) || !a.ZeroG1.Equal(b.ZeroG1) || !a.OneG1.Equal(b.OneG1) {
		failf("%s: size, omega or constants differ", what)
	}
	for i := range a.Domain {
		if !a.Domain[i].Equal(b.Domain[i]) || !a.AprimeDomainI[i].Equal(b.AprimeDomainI[i]) || !a.LagrangeBasis[i].Equal(b.LagrangeBasis[i]) || !a.Diff2[i].Equal(b.Diff2[i]) {
			failf("%s: element %d differs", what, i)
		}
	}
	if !bytes.Equal(a.Bytes(), b.Bytes()) {
		failf("%s: different bytes", what)
	}
}

// selfConsistent checks a setup with an unknown secret by pairings: the basis sums up to the generator, and the
// products of A'(i), the basis and the differences are the same for all elements of the domain
func selfConsistent(what string, x *setup, every int) {
	s := x.Suite
	sum, mean := s.G1().Point().Null(), s.G1().Point().Null()
	for i := range x.LagrangeBasis {
		sum.Add(sum, x.LagrangeBasis[i])
		mean.Add(mean, s.G1().Point().Mul(x.Domain[i], x.LagrangeBasis[i]))
	}
	g, h := s.G1().Point().Base(), s.G2().Point().Base()
	if !sum.Equal(g) {
		failf("%s: the Lagrange basis does not sum up to the generator", what)
	}
	var first kyber.Point
	for i := range x.LagrangeBasis {
		if i%every != 0 && i != len(x.LagrangeBasis)-1 {
			continue
		}
		// [secret - dom_i] in both groups
		l := s.G1().Point().Sub(mean, s.G1().Point().Mul(x.Domain[i], nil))
		if x.D > 1 && !s.Pair(l, h).Equal(s.Pair(g, x.Diff2[i])) {
			failf("%s: difference %d does not fit the basis", what, i)
		}
		p := s.Pair(s.G1().Point().Mul(x.AprimeDomainI[i], x.LagrangeBasis[i]), x.Diff2[i])
		if first == nil {
			first = p
		}
		if !p.Equal(first) {
			failf("%s: element %d of the basis is not consistent", what, i)
		}
	}
}

// checkOpening checks the proof with pairings only
func checkOpening(what string, x *setup, p *kzgProof) {
	s := x.Suite
	for i, e := range p.Path {
		v := p.Terminal
		if e.VectorIndex < 256 {
			if i == len(p.Path)-1 {
				failf("%s: wrong proof", what)
			}
			v = scalarOfPoint(s, p.Path[i+1].C)
		}
		l := s.G1().Point().Sub(e.C, s.G1().Point().Mul(v, nil))
		if !s.Pair(e.Proof, x.Diff2[e.VectorIndex]).Equal(s.Pair(l, s.G2().Point().Base())) {
			failf("%s: the proof does not open element %d at the index %d", what, i, e.VectorIndex)
		}
	}
}

func runC18(c *Ctx) {
	suite := bn256.NewSuite()
	dir := filepath.Join(os.Getenv("MC_TMP"), "c18")
	if os.Getenv("MC_TMP") == "" {
		dir, _ = os.MkdirTemp("", "c18")
	}
	_ = os.MkdirAll(dir, 0700)
	defer os.RemoveAll(dir)
	secrets := []*big.Int{
		new(big.Int).SetBytes([]byte(pat(32, 1))),
		new(big.Int).Sub(bn256.Order, big.NewInt(1)),
		new(big.Int).SetBytes([]byte(pat(30, 9))),
		new(big.Int).SetBytes([]byte(rep("\xff", 26))),
	}
	mk := func(d int, omega *big.Int, secret *big.Int) (*setup, error) {
		if omega.Sign() == 0 {
			return trie_kzg_bn256.TrustedSetupFromSecretNaturalDomain(suite, uint16(d), scal(suite, secret))
		}
		return trie_kzg_bn256.TrustedSetupFromSecretPowers(suite, uint16(d), scal(suite, omega), scal(suite, secret))
	}
	omegas := []*big.Int{big.NewInt(0), rootOfUnity(1), rootOfUnity(2), rootOfUnity(-1), rootOfUnity(2871)}
	c.generatedRoots(suite, mk)
	// round trips
	ds := append(rng(1, c.pick(10, 40), 1), c.pick(16, 128))
	s, end := c.Begin("round trips", fmt.Sprintf("sizes %v x natural domain and 4 roots of unity x 4 secrets; bytes and file; compared with the definition", ds))
	c.Par(len(ds)*len(omegas)*len(secrets), func(i int) {
		sec, om, d := secrets[i%len(secrets)], omegas[i/len(secrets)%len(omegas)], ds[i/len(secrets)/len(omegas)]
		c.Case(s, fmt.Sprintf("size %d omega %v secret %v", d, om, sec), func() {
			atomic.AddInt64(&s.Transitions, 1)
			x, err := mk(d, om, sec)
			if err != nil {
				failf("%v", err)
			}
			r := newRefSetup(d, om, sec)
			r.check("generated", x, 1)
			data := x.Bytes()
			if len(data) != 2+32+d*(64+128) {
				failf("wrong size of the data %d", len(data))
			}
			y, err := trie_kzg_bn256.TrustedSetupFromBytes(suite, data)
			if err != nil {
				failf("can't read back: %v", err)
			}
			if !bytes.Equal(data, x.Bytes()) {
				failf("reading changed the setup")
			}
			r.check("read back", y, 1)
			sameSetup("read back", x, y)
			fn := filepath.Join(dir, fmt.Sprintf("f%d", i))
			if err := os.WriteFile(fn, data, 0600); err != nil {
				failf("%v", err)
			}
			z, err := trie_kzg_bn256.TrustedSetupFromFile(suite, fn)
			_ = os.Remove(fn)
			if err != nil {
				failf("can't read back from the file: %v", err)
			}
			sameSetup("read from the file", x, z)
			if d%5 == 2 {
				selfConsistent("read back", y, 1)
			}
			c.outcomeFast(fmt.Sprintf("size %d natural %v", d, om.Sign() == 0))
		})
	})
	end()
	// rejection of changed data
	small := []int{1, 2, 3}
	for _, d := range small {
		for oi, om := range omegas[:c.pick(2, 5)] {
			x, err := mk(d, om, secrets[oi%len(secrets)])
			if err != nil {
				failf("%v", err)
			}
			data := x.Bytes()
			if oi == 1 && d < 3 && c.quick() {
				continue
			}
			s, end := c.Begin(fmt.Sprintf("changed data size %d omega %d", d, oi), "every prefix, every appended byte, every byte changed to every other value")
			rejected := func(b []byte, id func() string) {
				atomic.AddInt64(&s.Transitions, 1)
				if y, err := trie_kzg_bn256.TrustedSetupFromBytes(suite, b); err == nil || y != nil && err != nil {
					failf("setup is accepted: %s", id())
				}
			}
			c.Par(len(data)+1, func(i int) {
				c.Case(s, fmt.Sprintf("position %d", i), func() {
					if i == len(data) {
						for v := 0; v < 256; v++ {
							rejected(append(append([]byte{}, data...), byte(v)), func() string { return fmt.Sprintf("extended by %d", v) })
						}
						for n := 2; n < 400; n++ {
							rejected(append(append([]byte{}, data...), make([]byte, n)...), func() string { return fmt.Sprintf("extended by %d bytes", n) })
							rejected(append(append([]byte{}, data...), data[:n%len(data)+1]...), func() string { return fmt.Sprintf("extended by %d own bytes", n) })
						}
						return
					}
					rejected(data[:i], func() string { return fmt.Sprintf("cut to %d", i) })
					for v := 1; v < 256 && d > 1; v++ { // with one point a changed byte can give another good setup
						if c.quick() && d == 3 && v&(v-1) != 0 && v != 255 {
							continue
						}
						b := append([]byte{}, data...)
						b[i] ^= byte(v)
						rejected(b, func() string { return fmt.Sprintf("byte %d changed from %d to %d", i, data[i], b[i]) })
					}
					c.outcomeFast("rejected")
				})
			})
			end()
		}
	}
	// wrong parameters
	s, end = c.Begin("wrong parameters", "secrets with less than 50 digits, secrets in the domain, repeated points, omega which is not a root of unity; from parameters and from bytes")
	refuse := func(d int, om, sec *big.Int, why string) {
		c.Case(s, fmt.Sprintf("size %d omega %v secret %v", d, om, sec), func() {
			atomic.AddInt64(&s.Transitions, 1)
			x, err := mk(d, om, sec)
			if err == nil || x != nil {
				failf("setup is accepted: %s", why)
			}
			c.outcomeFast("refused: " + why)
		})
	}
	for _, om := range omegas {
		for _, sv := range append([]*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(3), big.NewInt(1 << 40)}, new(big.Int).SetBytes([]byte(pat(16, 4))), bn256.Order, new(big.Int).Add(bn256.Order, big.NewInt(2))) {
			for _, d := range []int{1, 2, 5, 17} {
				refuse(d, om, sv, "weak secret")
			}
		}
	}
	for _, om := range omegas[1:] {
		for _, d := range []int{2, 3, 7, 20} {
			for i := 0; i < d; i++ {
				refuse(d, om, new(big.Int).Exp(om, big.NewInt(int64(i)), bn256.Order), "secret in the domain")
			}
		}
	}
	ord := func(n int64) *big.Int { // an element of the order n | 2^5 * 3
		e := new(big.Int).Sub(bn256.Order, big.NewInt(1))
		e.Div(e, big.NewInt(n))
		for cnd := int64(2); ; cnd++ {
			r := new(big.Int).Exp(big.NewInt(cnd), e, bn256.Order)
			k := r
			ok := true
			for i := int64(1); i < n; i++ {
				if k.Cmp(big.NewInt(1)) == 0 {
					ok = false
				}
				k = mulmod(k, r)
			}
			if ok {
				return r
			}
		}
	}
	powersOnly := func(d int, om *big.Int, why string) {
		c.Case(s, fmt.Sprintf("powers: size %d omega %v", d, om), func() {
			atomic.AddInt64(&s.Transitions, 1)
			if x, err := trie_kzg_bn256.TrustedSetupFromSecretPowers(suite, uint16(d), scal(suite, om), scal(suite, secrets[0])); err == nil || x != nil {
				failf("setup is accepted: %s", why)
			}
			c.outcomeFast("refused: " + why)
		})
		// the same from bytes: those of another setup with the omega replaced
		if om.Sign() != 0 {
			c.Case(s, fmt.Sprintf("bytes: size %d omega %v", d, om), func() {
				atomic.AddInt64(&s.Transitions, 1)
				x, err := mk(d, omegas[1], secrets[0])
				if err != nil {
					failf("%v", err)
				}
				b := x.Bytes()
				ob, _ := scal(suite, om).MarshalBinary()
				copy(b[2:], ob)
				if _, err := trie_kzg_bn256.TrustedSetupFromBytes(suite, b); err == nil {
					failf("setup is accepted: %s", why)
				}
			})
		}
	}
	for _, d := range rng(2, c.pick(12, 60), 1) {
		powersOnly(d, big.NewInt(1), "repeated points")
		powersOnly(d, big.NewInt(0), "repeated points")
		for _, n := range []int64{2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 96} {
			powersOnly(d, ord(n), "not a root of unity of the right order")
		}
		for _, v := range []int64{2, 3, 1 << 40} {
			powersOnly(d, big.NewInt(v), "not a root of unity")
		}
		powersOnly(d, secrets[2], "not a root of unity")
		powersOnly(d, mulmod(rootOfUnity(1), ord(2)), "not a root of unity of the right order")
	}
	if !c.quick() {
		powersOnly(kzgFactor+1, rootOfUnity(1), "repeated points")
	}
	for _, fn := range []string{"missing", "", "."} {
		c.Case(s, "file "+fn, func() {
			atomic.AddInt64(&s.Transitions, 1)
			if x, err := trie_kzg_bn256.TrustedSetupFromFile(suite, filepath.Join(dir, fn)); err == nil || x != nil {
				failf("missing file is accepted")
			}
		})
	}
	end()
	c.setupsOfTheModel(suite, secrets, omegas)
	c.flushOutcomes()
}

func scalarOfPoint(s *bn256.Suite, p kyber.Point) kyber.Scalar {
	b, err := p.MarshalBinary()
	if err != nil {
		failf("%v", err)
	}
	h := blake(b)
	return s.G1().Scalar().SetBytes(h)
}

// setupsOfTheModel: setups of the size used by the trie
func (c *Ctx) setupsOfTheModel(suite *bn256.Suite, secrets, omegas []*big.Int) {
	s, end := c.Begin("setups of the trie model", "size 258: the embedded one, the natural domain, a root of unity: consistent at every index, read back the same; the same commitments and proofs before and after, each verified by pairings")
	defer end()
	type named struct {
		name string
		mk   func() (*setup, error)
		ref  *refSetup
	}
	list := []named{
		{"embedded", func() (*setup, error) {
			return trie_kzg_bn256.TrustedSetupFromBytes(suite, trie_kzg_bn256.GetTrustedSetupBin())
		}, nil},
		{"natural", func() (*setup, error) {
			return trie_kzg_bn256.TrustedSetupFromSecretNaturalDomain(suite, 258, scal(suite, secrets[0]))
		}, newRefSetup(258, big.NewInt(0), secrets[0])},
		{"powers", func() (*setup, error) {
			return trie_kzg_bn256.TrustedSetupFromSecretPowers(suite, 258, scal(suite, omegas[2]), scal(suite, secrets[2]))
		}, newRefSetup(258, omegas[2], secrets[2])},
		{"seed", func() (*setup, error) {
			return trie_kzg_bn256.TrustedSetupFromSeed(suite, 258, []byte("seed"))
		}, newRefSetup(258, big.NewInt(0), new(big.Int).SetBytes(blake([]byte("seed"))))},
	}
	contents := []map[string]string{
		{"a": "1", "ab": "2", "abc": "3", "b": "1"},
		{"": "1", "\x00": "2", "\xff": "1", "\xff\xff": "2", "\x80": "7"},
	}
	c.Par(len(list), func(i int) {
		n := list[i]
		var x, y *setup
		if !c.Case(s, n.name+" read back", func() {
			var err error
			if x, err = n.mk(); err != nil {
				failf("%v", err)
			}
			if n.ref != nil {
				n.ref.check("generated", x, 1)
			}
			if y, err = trie_kzg_bn256.TrustedSetupFromBytes(suite, x.Bytes()); err != nil {
				failf("can't read back: %v", err)
			}
			sameSetup("read back", x, y)
			if i == 0 {
				if !bytes.Equal(x.Bytes(), trie_kzg_bn256.GetTrustedSetupBin()) {
					failf("the embedded setup changes when read and written")
				}
				sameSetup("model", x, &trie_kzg_bn256.Model.TrustedSetup)
			}
			atomic.AddInt64(&s.Transitions, 1)
		}) {
			return
		}
		c.Case(s, n.name+" consistency", func() {
			selfConsistent("read back", y, c.pick(3, 1))
			atomic.AddInt64(&s.Transitions, 258)
		})
		if !bytes.Equal(x.Bytes(), y.Bytes()) {
			return
		}
		for _, ct := range contents {
			c.Case(s, n.name+" proofs "+mapStr(ct), func() {
				var proofs [2][][]byte
				for j, ts := range []*setup{x, y} {
					m := &trie_kzg_bn256.CommitmentModel{TrustedSetup: *ts}
					st := NewStore()
					tr := trie.New(m, st, nil)
					for _, k := range sortedKeys(ct) {
						tr.Update([]byte(k), []byte(ct[k]))
					}
					tr.Commit()
					proofs[j] = append(proofs[j], rootOf(tr))
					for _, k := range sortedKeys(ct) {
						p, ok := m.ProofOfInclusion([]byte(k), tr)
						if !ok {
							failf("no proof of %s", q(k))
						}
						if j == 0 || !c.quick() {
							checkOpening("key "+q(k), ts, p)
						}
						proofs[j] = append(proofs[j], p.Bytes())
						atomic.AddInt64(&s.Transitions, 1)
					}
				}
				for k := range proofs[0] {
					if !bytes.Equal(proofs[0][k], proofs[1][k]) {
						failf("root or proof %d differs after reading back", k)
					}
				}
				c.outcomeFast("proofs " + n.name)
			})
		}
	})
}

// generatedRoots: whatever root of unity is generated, it makes a valid setup
func (c *Ctx) generatedRoots(suite *bn256.Suite, mk func(d int, omega *big.Int, secret *big.Int) (*setup, error)) {
	ds := append(rng(1, 17, 1), 31, 257, 258)
	s, end := c.Begin("generated roots", fmt.Sprintf("a root of unity for each of the sizes %v: its order, its powers; the setup made with it for sizes up to 6 against the definition", ds))
	defer end()
	c.Par(len(ds), func(i int) {
		d := ds[i]
		c.Case(s, fmt.Sprintf("size %d", d), func() {
			type res struct {
				omega  *big.Int
				powers []*big.Int
				msg    string
			}
			ch := make(chan res, 1)
			go func() {
				var r res
				r.msg = runCase(func() {
					o, p := trie_kzg_bn256.GenRootOfUnityQuasiPrimitive(suite, uint16(d))
					r.omega = big.NewInt(0).Set(scalInt(o))
					for _, x := range p {
						r.powers = append(r.powers, scalInt(x))
					}
				})
				ch <- r
			}()
			var r res
			select {
			case r = <-ch:
			case <-time.After(150 * time.Second):
				failf("no root of unity is generated")
			}
			if r.msg != "" {
				failf("%s", r.msg)
			}
			one := big.NewInt(1)
			if new(big.Int).Exp(r.omega, big.NewInt(trie_kzg_bn256.FACTOR), bn256.Order).Cmp(one) != 0 {
				failf("%v is not a root of unity", r.omega)
			}
			if len(r.powers) != d {
				failf("%d powers", len(r.powers))
			}
			x := big.NewInt(1)
			seen := map[string]int{}
			for j, p := range r.powers {
				if p.Cmp(x) != 0 {
					failf("power #%d is %v, expected %v", j, p, x)
				}
				if k, ok := seen[p.String()]; ok {
					failf("powers #%d and #%d are equal", k, j)
				}
				seen[p.String()] = j
				x.Mul(x, r.omega).Mod(x, bn256.Order)
			}
			atomic.AddInt64(&s.Transitions, int64(d))
			if d > 1 && d <= 6 {
				sec := new(big.Int).SetBytes([]byte(pat(32, 1)))
				ts, err := mk(d, r.omega, sec)
				if err != nil {
					failf("no setup with the generated root: %v", err)
				}
				newRefSetup(d, r.omega, sec).check("generated", ts, 1)
			}
		})
	})
}

func scalInt(s kyber.Scalar) *big.Int {
	b, err := s.MarshalBinary()
	if err != nil {
		panic("harness error: " + err.Error())
	}
	return new(big.Int).SetBytes(b)
}
