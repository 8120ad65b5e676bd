package dd

// table is an open-addressing hash table from three int32 to an int32.
type table struct {
	e    []entry
	n    int
	mask uint32
}

type entry struct {
	a, b, c int32
	v       int32 // value+1; 0 marks a free slot
}

func newTable() *table {
	t := &table{}
	t.e = make([]entry, 1<<6)
	t.mask = uint32(len(t.e) - 1)
	return t
}

func hash3(a, b, c int32) uint32 {
	h := (uint64(uint32(a))<<32 | uint64(uint32(b))) * 0x9E3779B97F4A7C15
	h ^= h >> 32
	h = (h + uint64(uint32(c))) * 0xD6E8FEB86659FD93
	h ^= h >> 32
	h *= 0xD6E8FEB86659FD93
	return uint32(h >> 32)
}

func (t *table) get(a, b, c int32) (int32, bool) {
	for i := hash3(a, b, c) & t.mask; ; i = (i + 1) & t.mask {
		e := &t.e[i]
		if e.v == 0 {
			return 0, false
		}
		if e.a == a && e.b == b && e.c == c {
			return e.v - 1, true
		}
	}
}

func (t *table) put(a, b, c, v int32) {
	if uint32(t.n)*2 >= t.mask {
		old := t.e
		t.e = make([]entry, 2*len(old))
		t.mask = uint32(len(t.e) - 1)
		for _, e := range old {
			if e.v != 0 {
				t.insert(e)
			}
		}
	}
	if t.insert(entry{a, b, c, v + 1}) {
		t.n++
	}
}

func (t *table) insert(x entry) bool {
	for i := hash3(x.a, x.b, x.c) & t.mask; ; i = (i + 1) & t.mask {
		e := &t.e[i]
		if e.v == 0 {
			*e = x
			return true
		}
		if e.a == x.a && e.b == x.b && e.c == x.c {
			e.v = x.v
			return false
		}
	}
}

// maxCache bounds the entries of a cache.
const maxCache = 1 << 24

// cache is like table, but may forget entries: each has one place, and once
// the cache has its full size, a new entry replaces the one that is there.
type cache struct {
	e    []entry
	n    int
	mask uint32
}

func newCache() *cache {
	return &cache{e: make([]entry, 1<<10), mask: 1<<10 - 1}
}

func (t *cache) get(a, b, c int32) (int32, bool) {
	e := &t.e[hash3(a, b, c)&t.mask]
	if e.v != 0 && e.a == a && e.b == b && e.c == c {
		return e.v - 1, true
	}
	return 0, false
}

func (t *cache) put(a, b, c, v int32) {
	if t.n*2 >= len(t.e) && len(t.e) < maxCache {
		old := t.e
		t.e = make([]entry, 4*len(old))
		t.mask = uint32(len(t.e) - 1)
		t.n = 0
		for _, e := range old {
			if e.v != 0 {
				t.set(e)
			}
		}
	}
	t.set(entry{a, b, c, v + 1})
}

func (t *cache) set(x entry) {
	e := &t.e[hash3(x.a, x.b, x.c)&t.mask]
	if e.v == 0 {
		t.n++
	}
	*e = x
}

// index finds the nodes of a manager by their content.
type index struct {
	e    []int32 // node+1; 0 marks a free slot
	mask uint32
}

func newIndex() *index { return &index{e: make([]int32, 1<<10), mask: 1<<10 - 1} }

// find returns the slot that holds n or would hold it, and the node there, if any.
func (t *index) find(nodes []node, n node) (slot uint32, at Ref, ok bool) {
	for i := hash3(n.level, int32(n.lo), int32(n.hi)) & t.mask; ; i = (i + 1) & t.mask {
		v := t.e[i]
		if v == 0 {
			return i, 0, false
		}
		if nodes[v-1] == n {
			return i, Ref(v - 1), true
		}
	}
}

// grow makes space for another node.
func (t *index) grow(nodes []node) bool {
	if 2*len(nodes) < len(t.e) {
		return false
	}
	t.e = make([]int32, 2*len(t.e))
	t.mask = uint32(len(t.e) - 1)
	for r, n := range nodes {
		i, _, _ := t.find(nodes, n)
		t.e[i] = int32(r) + 1
	}
	return true
}
