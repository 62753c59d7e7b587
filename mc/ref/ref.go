// Package ref holds the reference models: direct transcriptions of RFC 6962 and
// of the sparse Merkle map, written independently of the code under test.
package ref

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"sort"
	"strconv"
	"sync"
)

// Leaf is the RFC 6962 leaf hash.
func Leaf(b []byte) []byte {
	s := sha256.Sum256(append([]byte{0}, b...))
	return s[:]
}

// Node is the RFC 6962 interior hash.
func Node(l, r []byte) []byte {
	b := make([]byte, 0, 65)
	b = append(b, 1)
	b = append(b, l...)
	b = append(b, r...)
	s := sha256.Sum256(b)
	return s[:]
}

// Split is the largest power of two smaller than n (n > 1).
func Split(n int) int {
	k := 1
	for k < n-k {
		k *= 2
	}
	return k
}

// Tree is a list of leaf hashes with memoised subtree hashes.
type Tree struct {
	L    [][]byte
	mu   sync.Mutex
	memo map[[2]int][]byte
}

// Add appends a leaf input.
func (t *Tree) Add(leafInput []byte) { t.L = append(t.L, Leaf(leafInput)) }

// MTH is MTH(D[a:b]).
func (t *Tree) MTH(a, b int) []byte {
	if b-a == 0 {
		s := sha256.Sum256(nil)
		return s[:]
	}
	if b-a == 1 {
		return t.L[a]
	}
	key := [2]int{a, b}
	t.mu.Lock()
	if v, ok := t.memo[key]; ok {
		t.mu.Unlock()
		return v
	}
	t.mu.Unlock()
	k := Split(b - a)
	v := Node(t.MTH(a, a+k), t.MTH(a+k, b))
	t.mu.Lock()
	if t.memo == nil {
		t.memo = map[[2]int][]byte{}
	}
	t.memo[key] = v
	t.mu.Unlock()
	return v
}

// Root is the head of the first n leaves.
func (t *Tree) Root(n int) []byte { return t.MTH(0, n) }

// Path is the RFC 6962 audit path PATH(m, D[a:b]).
func (t *Tree) Path(m, a, b int) [][]byte {
	if b-a == 1 {
		return nil
	}
	k := Split(b - a)
	if m < k {
		return append(t.Path(m, a, a+k), t.MTH(a+k, b))
	}
	return append(t.Path(m-k, a+k, b), t.MTH(a, a+k))
}

// Proof is the RFC 6962 consistency proof PROOF(m, D[0:n]).
func (t *Tree) Proof(m, n int) [][]byte { return t.subProof(m, 0, n, true) }

func (t *Tree) subProof(m, a, b int, whole bool) [][]byte {
	if m == b-a {
		if whole {
			return nil
		}
		return [][]byte{t.MTH(a, b)}
	}
	k := Split(b - a)
	if m <= k {
		return append(t.subProof(m, a, a+k, whole), t.MTH(a+k, b))
	}
	return append(t.subProof(m-k, a+k, b, false), t.MTH(a, a+k))
}

// RootFromInclusion recomputes the root from an audit path by recursion on the
// tree shape; ok is false if the path does not have the right length.
func RootFromInclusion(leafHash []byte, m, n int, path [][]byte) ([]byte, bool) {
	if n == 1 {
		return leafHash, len(path) == 0
	}
	if len(path) == 0 {
		return nil, false
	}
	k := Split(n)
	last := path[len(path)-1]
	if m < k {
		l, ok := RootFromInclusion(leafHash, m, k, path[:len(path)-1])
		return Node(l, last), ok
	}
	r, ok := RootFromInclusion(leafHash, m-k, n-k, path[:len(path)-1])
	return Node(last, r), ok
}

// Eq compares lists of hashes; nil and empty are the same.
func Eq(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Default[d] is the hash of an empty subtree at depth d of a map.
var Default = func() [257][]byte {
	var rv [257][]byte
	rv[256] = Leaf(nil)
	for i := 255; i >= 0; i-- {
		rv[i] = Node(rv[i+1], rv[i+1])
	}
	return rv
}()

// KeyPath is the path of a key.
func KeyPath(key []byte) [32]byte { return sha256.Sum256(key) }

// Bit is the i-th bit of a path, most significant first.
func Bit(p [32]byte, i int) int { return int(p[i/8]>>(7-i%8)) & 1 }

// MapState maps key paths to leaf inputs; only non-empty values are kept.
type MapState struct {
	M map[[32]byte]string // path -> leaf hash
}

// NewMap is the empty map.
func NewMap() *MapState { return &MapState{M: map[[32]byte]string{}} }

// Clone copies the state.
func (s *MapState) Clone() *MapState {
	n := NewMap()
	for k, v := range s.M {
		n.M[k] = v
	}
	return n
}

// LeafHash is the leaf hash at key (that of the empty value when absent).
func (s *MapState) LeafHash(key []byte) []byte {
	if v, ok := s.M[KeyPath(key)]; ok {
		return []byte(v)
	}
	return Default[256]
}

// Set stores a value.
func (s *MapState) Set(key, leafInput []byte) {
	h := Leaf(leafInput)
	if bytes.Equal(h, Default[256]) {
		delete(s.M, KeyPath(key))
		return
	}
	s.M[KeyPath(key)] = string(h)
}

type kv struct {
	p [32]byte
	h []byte
}

func (s *MapState) sorted() []kv {
	l := make([]kv, 0, len(s.M))
	for p, h := range s.M {
		l = append(l, kv{p, []byte(h)})
	}
	sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i].p[:], l[j].p[:]) < 0 })
	return l
}

var singleMemo sync.Map

func sub(l []kv, d int) []byte {
	if len(l) == 0 {
		return Default[d]
	}
	if d == 256 {
		return l[0].h
	}
	if len(l) == 1 {
		// hash of a subtree with a single leaf, for every depth: memoised
		type mk struct {
			p [32]byte
			h string
		}
		key := mk{l[0].p, string(l[0].h)}
		v, ok := singleMemo.Load(key)
		if !ok {
			var arr [257][]byte
			cur := l[0].h
			arr[256] = cur
			for i := 255; i >= 0; i-- {
				if Bit(l[0].p, i) == 1 {
					cur = Node(Default[i+1], cur)
				} else {
					cur = Node(cur, Default[i+1])
				}
				arr[i] = cur
			}
			v = &arr
			singleMemo.Store(key, v)
		}
		return v.(*[257][]byte)[d]
	}
	i := sort.Search(len(l), func(i int) bool { return Bit(l[i].p, d) == 1 })
	return Node(sub(l[:i], d+1), sub(l[i:], d+1))
}

// Root is the root hash of the map.
func (s *MapState) Root() []byte { return sub(s.sorted(), 0) }

// Siblings are the 256 sibling hashes on the path of key.
func (s *MapState) Siblings(key []byte) [][]byte {
	l := s.sorted()
	p := KeyPath(key)
	rv := make([][]byte, 256)
	for d := 0; d < 256; d++ {
		i := sort.Search(len(l), func(i int) bool { return Bit(l[i].p, d) == 1 })
		if Bit(p, d) == 1 {
			rv[d] = sub(l[:i], d+1)
			l = l[i:]
		} else {
			rv[d] = sub(l[i:], d+1)
			l = l[:i]
		}
	}
	return rv
}

// RootFromMapProof recomputes the root from a value's leaf hash and the path's
// siblings, of which missing or empty ones stand for the defaults.
func RootFromMapProof(key, leafHash []byte, proof [][]byte) []byte {
	p := KeyPath(key)
	cur := leafHash
	for i := 255; i >= 0; i-- {
		var s []byte
		if i < len(proof) {
			s = proof[i]
		}
		if len(s) == 0 {
			s = Default[i+1]
		}
		if Bit(p, i) == 1 {
			cur = Node(s, cur)
		} else {
			cur = Node(cur, s)
		}
	}
	return cur
}

// CPL is the number of leading bits that the paths of two keys share.
func CPL(a, b []byte) int {
	pa, pb := KeyPath(a), KeyPath(b)
	for i := 0; i < 256; i++ {
		if Bit(pa, i) != Bit(pb, i) {
			return i
		}
	}
	return 256
}

// Base is a key for which Ladder has keys sharing prefixes of many lengths.
var Base = []byte("k1077278")

// Ladder maps a number of bits to a key whose path shares exactly that many
// leading bits with Base's.
var Ladder = func() map[int][]byte {
	m := map[int]int{0: 656400, 1: 1074749, 2: 2873842, 3: 2151829, 4: 3425928, 5: 2469640, 6: 2895141, 7: 3879630, 8: 2751905, 9: 15657, 10: 247864, 11: 548101, 12: 3830181, 13: 3475916, 14: 2748488, 15: 389772, 16: 3912819, 17: 3499319, 18: 3274931, 19: 757949, 20: 3132136, 21: 539352, 41: 809937}
	rv := map[int][]byte{}
	for c, i := range m {
		k := []byte("k" + strconv.Itoa(i))
		if CPL(Base, k) != c {
			panic(fmt.Sprintf("ref: bad ladder at %d", c))
		}
		rv[c] = k
	}
	return rv
}()

// Pairs maps a number of bits to two keys sharing exactly that many.
var Pairs = func() map[int][2][]byte {
	m := map[int][2]int{0: {1137397, 2151829}, 1: {2763535, 499083}, 2: {3721997, 3832560}, 3: {1446849, 343878}, 4: {2441518, 1943139}, 5: {1934855, 2917718}, 6: {2353075, 2478944}, 7: {1212232, 3148169}, 8: {360063, 1257894}, 9: {2724308, 2013128}, 10: {3896946, 700056}, 11: {3466, 2090475}, 12: {833114, 2245291}, 13: {1103858, 1350856}, 14: {3877590, 712444}, 15: {3388633, 3766526}, 16: {515353, 405292}, 17: {870639, 2145153}, 18: {2658672, 1342169}, 19: {2300365, 3532170}, 20: {2373478, 2300365}, 21: {1342169, 698119}, 22: {656400, 816130}, 23: {698119, 2666185}, 24: {4061807, 371457}, 25: {816130, 2373478}, 26: {1287496, 515353}, 27: {2282317, 2469468}, 28: {349295, 1908846}, 29: {795292, 4125634}, 30: {2229301, 711493}, 31: {6047, 4036389}, 32: {2365727, 121409}, 33: {3759781, 638837}, 34: {2605571, 458882}, 35: {1163051, 314280}, 36: {252115, 2831573}, 37: {3088928, 1892150}, 38: {284421, 252162}, 39: {2240710, 1168216}, 40: {3764026, 953151}, 41: {1077278, 809937}, 46: {2861205, 3180416}}
	rv := map[int][2][]byte{}
	for c, p := range m {
		a, b := []byte("k"+strconv.Itoa(p[0])), []byte("k"+strconv.Itoa(p[1]))
		if CPL(a, b) != c {
			panic(fmt.Sprintf("ref: bad pair at %d", c))
		}
		rv[c] = [2][]byte{a, b}
	}
	return rv
}()

// Big is a tree of any size whose leaves all have the same hash, so that its
// heads and proofs can be computed without building it.
type Big struct {
	perfect [63][]byte
}

// NewBig makes a Big with the given leaf hash.
func NewBig(leaf []byte) *Big {
	b := &Big{}
	b.perfect[0] = leaf
	for i := 1; i < 63; i++ {
		b.perfect[i] = Node(b.perfect[i-1], b.perfect[i-1])
	}
	return b
}

// Root is the head of n leaves.
func (b *Big) Root(n int) []byte {
	for i := 0; i < 63; i++ {
		if n == 1<<i {
			return b.perfect[i]
		}
	}
	k := Split(n)
	return Node(b.Root(k), b.Root(n-k))
}

// Path is the audit path of leaf m of n.
func (b *Big) Path(m, n int) [][]byte {
	if n == 1 {
		return nil
	}
	k := Split(n)
	if m < k {
		return append(b.Path(m, k), b.Root(n-k))
	}
	return append(b.Path(m-k, n-k), b.Root(k))
}

// Proof is the consistency proof from m to n.
func (b *Big) Proof(m, n int) [][]byte { return b.subProof(m, n, true) }

func (b *Big) subProof(m, n int, whole bool) [][]byte {
	if m == n {
		if whole {
			return nil
		}
		return [][]byte{b.Root(n)}
	}
	k := Split(n)
	if m <= k {
		return append(b.subProof(m, k, whole), b.Root(n-k))
	}
	return append(b.subProof(m-k, n-k, false), b.Root(k))
}

// RootsFromConsistency recomputes the old and new roots from a consistency
// proof by recursion on the shape of the tree, given the old root; ok is false
// when the proof does not have the right length.
func RootsFromConsistency(m, n int, whole bool, oldRoot []byte, proof [][]byte) (old, new []byte, ok bool) {
	if m == n {
		if whole {
			return oldRoot, oldRoot, len(proof) == 0
		}
		if len(proof) != 1 {
			return nil, nil, false
		}
		return proof[0], proof[0], true
	}
	if len(proof) == 0 {
		return nil, nil, false
	}
	k := Split(n)
	last := proof[len(proof)-1]
	if m <= k {
		o, l, ok := RootsFromConsistency(m, k, whole, oldRoot, proof[:len(proof)-1])
		if !ok {
			return nil, nil, false
		}
		return o, Node(l, last), true
	}
	o, r, ok := RootsFromConsistency(m-k, n-k, false, oldRoot, proof[:len(proof)-1])
	if !ok {
		return nil, nil, false
	}
	return Node(last, o), Node(last, r), true
}
