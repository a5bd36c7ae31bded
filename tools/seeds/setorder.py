PROP = 'M01'
NEEDS = 'removing an item other than the last one, and then the one that took its place'
BREAKS = 'listing the set misses an item or has one that was removed'
EDITS = [('misc/set.go', """	s.data = make(map[interface{}]bool)
""", """	s.data = make(map[interface{}]int)
"""),
         ('misc/set.go', """type set struct {
	data map[interface{}]bool
}
""", """type set struct {
	data map[interface{}]int // index in items
	items []interface{}
}
"""),
         ('misc/set.go', """	if !s.data[item] {
		s.data[item] = true
		return true
	}
""", """	if _, ok := s.data[item]; !ok {
		s.data[item] = len(s.items)
		s.items = append(s.items, item)
		return true
	}
"""),
         ('misc/set.go', """	if s.data[item] {
		delete(s.data, item)
		return true
	}
""", """	if i, ok := s.data[item]; ok {
		last := len(s.items) - 1
		if i < last {
			s.items[i] = s.items[last]
		}
		if i <= last {
			s.items = s.items[:last]
		}
		delete(s.data, item)
		return true
	}
"""),
         ('misc/set.go', """	for k := range s.data {
		arr = append(arr, k)
	}

	return arr
""", """	return append(arr, s.items...)
"""),
         ]
PKG = 'misc'
TEST = r'''package misc

import "testing"

func TestDemo(t *testing.T) {
	s := NewSet()
	for i := 0; i < 5; i++ {
		s.Add(i)
	}
	s.Remove(1) // 4 takes its place
	s.Remove(4)
	got := map[interface{}]bool{}
	for _, x := range s.ToSlice() {
		got[x] = true
	}
	if len(got) != 3 || !got[0] || !got[2] || !got[3] {
		t.Fatal(got)
	}
}
'''
