package main

import (
	"sort"
	"strings"
)

// Store is the reference key/value store of the harness: it copies everything passed in and out, and counts and
// (optionally) logs accesses
type Store struct {
	m      map[string]string
	writes int
	log    *[]kvw
	gets   int
	onGet  func(key string)
	frozen bool // a write is a violation
}

type kvw struct{ k, v string }

func NewStore() *Store { return &Store{m: map[string]string{}} }

func (s *Store) Get(k []byte) []byte {
	s.gets++
	if s.onGet != nil {
		s.onGet(string(k))
	}
	v, ok := s.m[string(k)]
	if !ok {
		return nil
	}
	return []byte(v)
}

func (s *Store) Has(k []byte) bool {
	_, ok := s.m[string(k)]
	return ok
}

func (s *Store) Set(k, v []byte) {
	if s.frozen {
		failf("unexpected write to the store: key %x", k)
	}
	s.writes++
	if s.log != nil {
		*s.log = append(*s.log, kvw{string(k), string(v)})
	}
	if len(v) == 0 {
		delete(s.m, string(k))
		return
	}
	s.m[string(k)] = string(v)
}

func (s *Store) Iterate(f func(k, v []byte) bool) {
	for _, k := range sortedKeys(s.m) {
		if !f([]byte(k), []byte(s.m[k])) {
			return
		}
	}
}

func (s *Store) Copy() *Store { return &Store{m: cp(s.m)} }

func sortedKeys(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func cp(m map[string]string) map[string]string {
	r := make(map[string]string, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func eqMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func mapStr(m map[string]string) string {
	var sb strings.Builder
	sb.WriteByte('{')
	for i, k := range sortedKeys(m) {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(q(k))
		sb.WriteByte(':')
		sb.WriteString(q(m[k]))
	}
	sb.WriteByte('}')
	return sb.String()
}

// mapKey is a canonical injective string for a map
func mapKey(m map[string]string) string {
	var sb strings.Builder
	for _, k := range sortedKeys(m) {
		v := m[k]
		sb.WriteByte(byte(len(k)))
		sb.WriteByte(byte(len(k) >> 8))
		sb.WriteByte(byte(len(k) >> 16))
		sb.WriteString(k)
		sb.WriteByte(byte(len(v)))
		sb.WriteByte(byte(len(v) >> 8))
		sb.WriteByte(byte(len(v) >> 16))
		sb.WriteString(v)
	}
	return sb.String()
}
