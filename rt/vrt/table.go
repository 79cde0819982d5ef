package vrt

// Table is a fixed-size open-addressing set of state keys with the remaining
// budget they were explored with.  When it is full, states are no longer
// remembered (which only costs time).
type Table struct {
	keys []uint64
	val  []uint8
	n    int
	max  int
	Hits int
}

func NewTable(bits uint) *Table {
	return &Table{keys: make([]uint64, 1<<bits), val: make([]uint8, 1<<bits), max: (1 << bits) * 3 / 4}
}

// Seen reports whether key was visited with at least budget b, and records it.
//
//go:norace
func (t *Table) Seen(key uint64, b uint8) bool {
	if key == 0 {
		key = 1
	}
	m := uint64(len(t.keys) - 1)
	i := key & m
	for {
		if t.keys[i] == key {
			if t.val[i] >= b {
				t.Hits++
				return true
			}
			t.val[i] = b
			return false
		}
		if t.keys[i] == 0 {
			if t.n >= t.max {
				return false
			}
			t.keys[i] = key
			t.val[i] = b
			t.n++
			return false
		}
		i = (i + 1) & m
	}
}

func (t *Table) Len() int { return t.n }

func (t *Table) Full() bool { return t.n >= t.max }

func (t *Table) Reset() {
	for i := range t.keys {
		t.keys[i] = 0
		t.val[i] = 0
	}
	t.n = 0
}
