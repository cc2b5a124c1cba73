package main

import (
	"bytes"
	"fmt"
	"sync/atomic"

	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register("C13", "exploration", runC13)
}

// refEncode is an independent description of what an encoding may be: it is checked only for being a bijection, the
// format itself is free. Here: the number of symbols of the arity
func symbols(a trie.PathArity) int { return int(a) + 1 }

func symPerByte(a trie.PathArity) int {
	switch a {
	case a16:
		return 2
	case a2:
		return 8
	}
	return 1
}

// forStrings calls f with all strings over the alphabet of the length l, split over all cores by the first symbols
func (c *Ctx) forStrings(alpha []byte, l int, f func(x []byte)) {
	n := 1
	split := 0
	for split < l && n < 64 {
		n *= len(alpha)
		split++
	}
	c.Par(n, func(i int) {
		x := make([]byte, l)
		for j, y := 0, i; j < split; j++ {
			x[j] = alpha[y%len(alpha)]
			y /= len(alpha)
		}
		idx := make([]int, l-split)
		for j := split; j < l; j++ {
			x[j] = alpha[0]
		}
		for {
			f(x)
			j := l - split - 1
			for ; j >= 0; j-- {
				idx[j]++
				if idx[j] < len(alpha) {
					x[split+j] = alpha[idx[j]]
					break
				}
				idx[j] = 0
				x[split+j] = alpha[0]
			}
			if j < 0 {
				return
			}
		}
	})
}

func bytesUpTo(n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(i)
	}
	return r
}

// judgeKey: unpacking and packing back
func judgeKey(k []byte, a trie.PathArity) {
	keep := string(k)
	u := trie.UnpackBytes(k, a)
	if string(u) != unpackRef(keep, a) {
		failf("arity %d: key %x is unpacked as %x, expected %x", symbols(a), keep, u, unpackRef(keep, a))
	}
	b, err := trie.PackUnpackedBytes(u, a)
	if err != nil || string(b) != keep {
		failf("arity %d: key %x is unpacked as %x, packed back as %x (%v)", symbols(a), keep, u, b, err)
	}
	if string(k) != keep {
		failf("arity %d: key %x was changed by unpacking", symbols(a), keep)
	}
}

// judgePath: encoding and decoding back; invalid paths are rejected. Returns the encoding
func judgePath(p []byte, a trie.PathArity) ([]byte, bool) {
	keep := string(p)
	valid := true
	for _, s := range p {
		if int(s) >= symbols(a) {
			valid = false
		}
	}
	e, err := trie.EncodeUnpackedBytes(p, a)
	if !valid {
		if err == nil {
			failf("arity %d: path %x with a wrong symbol is encoded as %x", symbols(a), p, e)
		}
		if pk, err := trie.PackUnpackedBytes(p, a); err == nil {
			failf("arity %d: path %x with a wrong symbol is packed as %x", symbols(a), p, pk)
		}
		return nil, false
	}
	if err != nil {
		failf("arity %d: path %x can't be encoded: %v", symbols(a), p, err)
	}
	ec := append([]byte{}, e...)
	d, err := trie.DecodeToUnpackedBytes(e, a)
	if err != nil || string(d) != keep {
		failf("arity %d: path %x is encoded as %x, decoded as %x (%v)", symbols(a), keep, ec, d, err)
	}
	if len(p)%symPerByte(a) == 0 {
		// whole bytes: the path of a key
		b, err := trie.PackUnpackedBytes(p, a)
		if err != nil {
			failf("arity %d: path %x can't be packed: %v", symbols(a), keep, err)
		}
		if u := trie.UnpackBytes(b, a); string(u) != keep {
			failf("arity %d: path %x is packed as %x, unpacked as %x", symbols(a), keep, b, u)
		}
	}
	if string(p) != keep || !bytes.Equal(e, ec) {
		failf("arity %d: path %x: argument was changed", symbols(a), keep)
	}
	return ec, true
}

// judgeEncoding: any data is either rejected or is exactly what the encoder produces for the decoded path
func judgeEncoding(e []byte, a trie.PathArity) bool {
	keep := string(e)
	p, err := trie.DecodeToUnpackedBytes(e, a)
	if err != nil {
		return false
	}
	pk := string(p)
	back, err := trie.EncodeUnpackedBytes(p, a)
	if err != nil || string(back) != keep {
		failf("arity %d: data %x is decoded as the path %x, which is encoded as %x (%v)", symbols(a), keep, pk, back, err)
	}
	return true
}

func runC13(c *Ctx) {
	batch := func(s *Section, alpha []byte, l int, f func(x []byte)) {
		c.Case(s, fmt.Sprintf("length %d over %d symbols", l, len(alpha)), func() {
			var first atomic.Value
			c.forStrings(alpha, l, func(x []byte) {
				atomic.AddInt64(&s.Transitions, 1)
				if first.Load() != nil {
					return
				}
				if msg := runCase(func() { f(x) }); msg != "" {
					first.CompareAndSwap(nil, msg+fmt.Sprintf("\n input %x", x))
				}
			})
			if m := first.Load(); m != nil {
				failf("%s", m.(string))
			}
		})
	}
	all := bytesUpTo(256)
	edge := []byte{0x00, 0x01, 0x02, 0x0f, 0x10, 0x7f, 0x80, 0xf0, 0xff}
	for _, a := range allArity {
		a := a
		name := fmt.Sprintf("arity %d", symbols(a))

		s, end := c.Begin("keys, "+name, "all byte strings up to 2 (thorough 3) bytes, all strings up to 6 (7) bytes over 9 boundary bytes")
		for l := 0; l <= c.pick(2, 3); l++ {
			batch(s, all, l, func(x []byte) { judgeKey(x, a) })
		}
		for l := 3; l <= c.pick(6, 7); l++ {
			batch(s, edge, l, func(x []byte) { judgeKey(x, a) })
		}
		end()

		s, end = c.Begin("paths, "+name, "all symbol sequences up to the length; encodings of all of them are different")
		max := map[trie.PathArity]int{a256: c.pick(2, 3), a16: c.pick(5, 6), a2: c.pick(18, 22)}[a]
		sym := bytesUpTo(symbols(a))
		seen := newShardSet()
		for l := 0; l <= max; l++ {
			batch(s, sym, l, func(x []byte) {
				e, ok := judgePath(x, a)
				if ok {
					if other, dup := seen.put(string(e), string(x)); dup {
						failf("arity %d: paths %x and %x have the same encoding %x", symbols(a), other, x, e)
					}
				}
			})
			if l >= 3 && a == a256 {
				break
			}
		}
		seen = nil
		end()

		s, end = c.Begin("paths with wrong symbols, "+name, "all sequences up to the length over valid and out of range symbols, and a wrong symbol at each position of longer paths")
		bad := []byte{0, 1}
		switch a {
		case a16:
			bad = []byte{0x00, 0x0f, 0x10, 0x1f, 0x80, 0xff}
		case a2:
			bad = []byte{0, 1, 2, 0x80, 0xff}
		}
		for l := 0; l <= c.pick(6, 7); l++ {
			batch(s, bad, l, func(x []byte) { judgePath(x, a) })
		}
		if a != a256 {
			for _, l := range []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 33, 64, 65} {
				for pos := 0; pos < l; pos++ {
					l, pos := l, pos
					c.Case(s, fmt.Sprintf("length %d, each wrong symbol at %d", l, pos), func() {
						for w := symbols(a); w < 256; w++ {
							p := make([]byte, l)
							for i := range p {
								p[i] = byte(i % symbols(a))
							}
							p[pos] = byte(w)
							judgePath(p, a)
						}
					})
				}
			}
		}
		end()

		s, end = c.Begin("encodings, "+name, "all byte strings up to 2 (thorough 3) bytes, all strings up to 6 (7) bytes over 9 boundary bytes")
		var okN int64
		for l := 0; l <= c.pick(2, 3); l++ {
			batch(s, all, l, func(x []byte) {
				if judgeEncoding(x, a) {
					atomic.AddInt64(&okN, 1)
				}
			})
		}
		for l := 3; l <= c.pick(6, 7); l++ {
			batch(s, edge, l, func(x []byte) {
				if judgeEncoding(x, a) {
					atomic.AddInt64(&okN, 1)
				}
			})
		}
		c.Outcome(fmt.Sprintf("arity %d: %d encodings accepted", symbols(a), okN))
		end()

		s, end = c.Begin("long keys and paths, "+name, "keys and paths of all lengths 0..600 and around 65535 with different contents, and their encodings with each bit of the first and the last 2 bytes changed")
		lens := append(rng(0, 600, 1), 4095, 4096, 32767, 32768, 65534, 65535, 65536)
		c.Par(len(lens), func(i int) {
			l := lens[i]
			c.Case(s, fmt.Sprintf("length %d", l), func() {
				for salt := 0; salt < 4; salt++ {
					k := make([]byte, l)
					p := make([]byte, l)
					for j := range k {
						k[j] = byte(j*7 + salt*31 + j/251)
						if salt == 3 {
							k[j] = 0
						}
						p[j] = byte(int(k[j]^k[j]>>4) % symbols(a))
					}
					judgeKey(k, a)
					e, _ := judgePath(p, a)
					for _, b := range []int{0, 1, len(e) - 2, len(e) - 1} {
						if b < 0 || b >= len(e) {
							continue
						}
						for bit := 0; bit < 8; bit++ {
							x := append([]byte{}, e...)
							x[b] ^= 1 << uint(bit)
							judgeEncoding(x, a)
							atomic.AddInt64(&s.Transitions, 1)
						}
					}
					if len(e) > 0 {
						judgeEncoding(append([]byte{}, e[:len(e)-1]...), a)
						judgeEncoding(append(append([]byte{}, e...), 0), a)
					}
				}
			})
		})
		end()
	}
	s, end := c.Begin("wrong arities", "all 253 wrong arity values x non-empty data")
	for v := 0; v < 256; v++ {
		a := trie.PathArity(v)
		if a == a256 || a == a16 || a == a2 {
			continue
		}
		c.Case(s, fmt.Sprintf("arity value %d", v), func() {
			for _, x := range [][]byte{{0}, {1}, {0, 0}, {0, 1, 1}, bytes.Repeat([]byte{1}, 16)} {
				if e, err := trie.EncodeUnpackedBytes(x, a); err == nil {
					failf("arity value %d: path %x is encoded as %x", v, x, e)
				}
				if e, err := trie.DecodeToUnpackedBytes(x, a); err == nil {
					failf("arity value %d: data %x is decoded as %x", v, x, e)
				}
				if e, err := trie.PackUnpackedBytes(x, a); err == nil {
					failf("arity value %d: path %x is packed as %x", v, x, e)
				}
				rejected := true
				func() {
					defer func() { recover() }()
					trie.UnpackBytes(x, a)
					rejected = false
				}()
				if !rejected {
					failf("arity value %d: key %x is unpacked", v, x)
				}
			}
		})
	}
	end()
}
