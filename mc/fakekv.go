package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/iotaledger/hive.go/core/kvstore"
)

// fakeKV is a reference implementation of kvstore.KVStore with fault injection at each call and a simulation of
// crashes. Everything passed in and out is copied. A batch is atomic; committed batches and single writes become
// durable with Flush
type fakeKV struct {
	mem     map[string]string // visible
	durable map[string]string // survives the crash for sure
	calls   int
	failAt  int               // the call with this number (from 1) fails
	failN   int               // number of further failures: of the next Batched, Commit or Flush calls after the first failure
	onCall  func(kind string) // called before each call
	after   bool              // the failing call reports a failure after it has made its effect (Commit, Flush, Set, Delete)
	kinds   []string
	failed  string // which call failed
}

var errStore = errors.New("failure of the store")

func newFakeKV() *fakeKV {
	return &fakeKV{mem: map[string]string{}, durable: map[string]string{}}
}

// call returns true if this call fails
func (f *fakeKV) call(kind string) bool {
	if f.onCall != nil {
		f.onCall(kind)
	}
	f.calls++
	f.kinds = append(f.kinds, kind)
	if f.calls == f.failAt {
		f.failed = kind
		return true
	}
	if f.failed != "" && f.failN > 0 && (kind == "Batched" || kind == "batch.Commit" || kind == "Flush") {
		f.failN--
		f.failed = kind
		return true
	}
	return false
}

func (f *fakeKV) WithRealm(realm kvstore.Realm) (kvstore.KVStore, error) {
	return nil, errors.New("not supported")
}
func (f *fakeKV) Realm() kvstore.Realm { return nil }

func (f *fakeKV) Iterate(prefix kvstore.KeyPrefix, fun kvstore.IteratorKeyValueConsumerFunc, d ...kvstore.IterDirection) error {
	if f.call("Iterate") {
		return errStore
	}
	ks := sortedKeys(f.mem)
	for _, k := range ks {
		if !strings.HasPrefix(k, string(prefix)) {
			continue
		}
		if !fun([]byte(k), []byte(f.mem[k])) {
			return nil
		}
		if f.call("next") {
			return errStore
		}
	}
	return nil
}

func (f *fakeKV) IterateKeys(prefix kvstore.KeyPrefix, fun kvstore.IteratorKeyConsumerFunc, d ...kvstore.IterDirection) error {
	return f.Iterate(prefix, func(k kvstore.Key, _ kvstore.Value) bool { return fun(k) }, d...)
}

func (f *fakeKV) Clear() error { return f.DeletePrefix(nil) }

func (f *fakeKV) Get(key kvstore.Key) (kvstore.Value, error) {
	if f.call("Get") {
		return nil, errStore
	}
	v, ok := f.mem[string(key)]
	if !ok {
		return nil, kvstore.ErrKeyNotFound
	}
	return []byte(v), nil
}

func (f *fakeKV) Has(key kvstore.Key) (bool, error) {
	if f.call("Has") {
		return false, errStore
	}
	_, ok := f.mem[string(key)]
	return ok, nil
}

func (f *fakeKV) Set(key kvstore.Key, value kvstore.Value) error {
	fail := f.call("Set")
	if !fail || f.after {
		f.mem[string(key)] = string(value)
	}
	if fail {
		return errStore
	}
	return nil
}

func (f *fakeKV) Delete(key kvstore.Key) error {
	fail := f.call("Delete")
	if !fail || f.after {
		delete(f.mem, string(key))
	}
	if fail {
		return errStore
	}
	return nil
}

func (f *fakeKV) DeletePrefix(prefix kvstore.KeyPrefix) error {
	if f.call("DeletePrefix") {
		return errStore
	}
	for k := range f.mem {
		if strings.HasPrefix(k, string(prefix)) {
			delete(f.mem, k)
		}
	}
	return nil
}

func (f *fakeKV) Flush() error {
	fail := f.call("Flush")
	if !fail || f.after {
		f.durable = cp(f.mem)
	}
	if fail {
		return errStore
	}
	return nil
}

func (f *fakeKV) Close() error { return nil }

func (f *fakeKV) Batched() (kvstore.BatchedMutations, error) {
	if f.call("Batched") {
		return nil, errStore
	}
	return &fakeBatch{f: f, ops: map[string]*string{}}, nil
}

// fakeBatch behaves as the batches of hive.go: it keeps its mutations after Commit, the last mutation of a key wins.
// In the mode "keep" it also keeps the slices, as the batches of hive.go do for values
type fakeBatch struct {
	f   *fakeKV
	ops map[string]*string
	// values kept by reference
	refs map[string][]byte
}

func (b *fakeBatch) Set(key kvstore.Key, value kvstore.Value) error {
	if b.f.call("batch.Set") {
		return errStore
	}
	if b.refs == nil {
		b.refs = map[string][]byte{}
	}
	v := ""
	b.ops[string(key)] = &v
	b.refs[string(key)] = value
	return nil
}

func (b *fakeBatch) Delete(key kvstore.Key) error {
	if b.f.call("batch.Delete") {
		return errStore
	}
	b.ops[string(key)] = nil
	return nil
}

func (b *fakeBatch) Cancel() { b.ops = map[string]*string{} }

func (b *fakeBatch) Commit() error {
	fail := b.f.call("batch.Commit")
	if !fail || b.f.after {
		for k, v := range b.ops {
			if v == nil {
				delete(b.f.mem, k)
			} else {
				if len(b.refs[k]) == 0 {
					failf("empty value of the key %x in the batch", k)
				}
				b.f.mem[k] = string(b.refs[k])
			}
		}
	}
	if fail {
		return errStore
	}
	return nil
}

// crashStates are the possible contents of the store after a crash now: with and without what is not flushed
func (f *fakeKV) crashStates() []map[string]string {
	if eqMap(f.mem, f.durable) {
		return []map[string]string{cp(f.mem)}
	}
	return []map[string]string{cp(f.mem), cp(f.durable)}
}

// partition returns the entries with the prefix, without it
func partition(m map[string]string, prefix string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		if strings.HasPrefix(k, prefix) {
			r[k[len(prefix):]] = v
		}
	}
	return r
}

// raised runs f and tells if it panicked, with the message
func raised(f func()) (msg string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if fl, is := r.(failure); is {
				panic(fl)
			}
			msg, ok = fmt.Sprint(r), true
		}
	}()
	f()
	return
}

var _ kvstore.KVStore = &fakeKV{}
