package main

import (
	"bytes"
	"fmt"
	"sort"
	"sync"

	"github.com/iotaledger/trie.go/trie"
	"golang.org/x/crypto/blake2b"
)

// readFrom reads the object from exactly the data
func readFrom(o trie.Serializable, data []byte) error {
	r := bytes.NewReader(data)
	if err := o.Read(r); err != nil {
		return err
	}
	if r.Len() != 0 {
		return fmt.Errorf("%d bytes not consumed", r.Len())
	}
	return nil
}

// shardSet is a concurrent map used to find duplicates
type shardSet struct {
	s [64]struct {
		mu sync.Mutex
		m  map[string]string
	}
}

func newShardSet() *shardSet { return &shardSet{} }

// put stores the value under the key. If the key is already there with another value, returns it and true
func (x *shardSet) put(k, v string) (string, bool) {
	h := uint32(2166136261)
	for i := 0; i < len(k); i++ {
		h = (h ^ uint32(k[i])) * 16777619
	}
	s := &x.s[h%64]
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.m == nil {
		s.m = map[string]string{}
	}
	if o, ok := s.m[k]; ok {
		return o, o != v
	}
	s.m[k] = v
	return "", false
}

func sortStrings(x []string) { sort.Strings(x) }

func blake(b []byte) []byte {
	h := blake2b.Sum256(b)
	return h[:]
}
