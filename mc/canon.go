package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"unsafe"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// canonical dump of an arbitrary object graph, independent of the names of types and fields, of map order and of
// addresses. Commitment models and stores are opaque: they are dumped separately or are constant

// alias-aware: an object reached a second time is dumped as a reference to its first occurrence, so that two states
// are only identified if also the sharing of memory inside of them is the same

type dumper struct {
	b     []byte
	seen  map[uintptr]int
	depth int
}

func (d *dumper) visited(p uintptr) bool {
	if id, ok := d.seen[p]; ok {
		d.b = append(d.b, fmt.Sprintf("R%d;", id)...)
		return true
	}
	d.seen[p] = len(d.seen)
	return false
}

var (
	typModel  = reflect.TypeOf((*trie.CommitmentModel)(nil)).Elem()
	typReader = reflect.TypeOf((*trie.KVReader)(nil)).Elem()
	typKZG    = reflect.TypeOf(trie_kzg_bn256.CommitmentModel{})
	typSer    = reflect.TypeOf((*trie.Serializable)(nil)).Elem()
	typBig    = reflect.TypeOf(big.Int{})
)

func canonHash(objs ...interface{}) [16]byte {
	d := dumper{seen: map[uintptr]int{}}
	for _, o := range objs {
		d.val(reflect.ValueOf(o))
		d.b = append(d.b, '|')
	}
	h := sha256.Sum256(d.b)
	var ret [16]byte
	copy(ret[:], h[:])
	return ret
}

func (d *dumper) val(v reflect.Value) {
	if !v.IsValid() {
		d.b = append(d.b, 'N')
		return
	}
	t := v.Type()
	if t.Kind() != reflect.Interface && (t.Implements(typModel) || t.Implements(typReader)) || t == typKZG {
		d.b = append(d.b, 'O')
		return
	}
	d.depth++
	defer func() { d.depth-- }()
	if d.depth > 200 {
		panic("harness error: dump too deep")
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			d.b = append(d.b, 'T')
		} else {
			d.b = append(d.b, 'F')
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.b = append(d.b, fmt.Sprintf("i%d;", v.Int())...)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.b = append(d.b, fmt.Sprintf("u%d;", v.Uint())...)
	case reflect.Float32, reflect.Float64:
		d.b = append(d.b, fmt.Sprintf("f%v;", v.Float())...)
	case reflect.String:
		d.str(v.String())
	case reflect.Slice:
		if v.IsNil() {
			// nil and empty slices of bytes are equivalent for the trie, but keep them apart: finer is sound
			d.b = append(d.b, 'n')
			return
		}
		if v.Len() > 0 && d.visited(v.Pointer()) {
			d.b = append(d.b, fmt.Sprintf("%d", v.Len())...)
			return
		}
		if t.Elem().Kind() == reflect.Uint8 {
			d.b = append(d.b, 's')
			d.bytes(v.Bytes())
			return
		}
		d.b = append(d.b, fmt.Sprintf("[%d;", v.Len())...)
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i))
		}
	case reflect.Array:
		d.b = append(d.b, fmt.Sprintf("a%d;", v.Len())...)
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			d.b = append(d.b, 'n')
			return
		}
		if d.visited(v.Pointer()) {
			return
		}
		type kv struct {
			k string
			v reflect.Value
		}
		items := make([]kv, 0, v.Len())
		it := v.MapRange()
		for it.Next() {
			sub := dumper{seen: map[uintptr]int{}}
			sub.val(it.Key())
			items = append(items, kv{string(sub.b), it.Value()})
		}
		sort.Slice(items, func(i, j int) bool { return items[i].k < items[j].k })
		d.b = append(d.b, fmt.Sprintf("m%d;", len(items))...)
		for _, x := range items {
			d.str(x.k)
			d.val(x.v)
		}
	case reflect.Ptr:
		if v.IsNil() {
			d.b = append(d.b, 'n')
			return
		}
		if v.Type().Implements(typSer) && v.CanInterface() {
			// commitments of the KZG model have a deep internal representation: use the serialized form
			if _, isSym := v.Interface().(*symT); !isSym && t.Elem().Kind() == reflect.Struct && t.Elem().PkgPath() != "" && t.Elem().NumField() == 1 {
				d.b = append(d.b, 'C')
				d.bytes(v.Interface().(trie.Serializable).Bytes())
				return
			}
		}
		if d.visited(v.Pointer()) {
			return
		}
		d.b = append(d.b, '&')
		d.val(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			d.b = append(d.b, 'n')
			return
		}
		d.val(v.Elem())
	case reflect.Struct:
		d.b = append(d.b, '{')
		if !v.CanAddr() {
			nv := reflect.New(t).Elem()
			nv.Set(v)
			v = nv
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanInterface() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			d.val(f)
		}
		d.b = append(d.b, '}')
	default: // func, chan, unsafe pointer: not state of the trie
		d.b = append(d.b, '?')
	}
}

func (d *dumper) str(s string) {
	d.b = append(d.b, fmt.Sprintf("\"%d:", len(s))...)
	d.b = append(d.b, s...)
}

func (d *dumper) bytes(b []byte) {
	d.b = append(d.b, fmt.Sprintf("%d:", len(b))...)
	d.b = append(d.b, b...)
}
