package wl

import (
	"reflect"
	"sort"
	"syscall"
	"unsafe"
)

// Memory at the edge: every allocation ends where the accessible memory ends
// (or starts where it starts), so that any access beyond it faults. The fault
// is a run-time panic of the simulated call.

const (
	edgePage   = 4096
	edgeSlots  = 1200 // per chunk
	edgeChunks = 10   // mappings are limited
)

var (
	edgeMem   [][]byte
	edgeNext  int
	edgeOff   bool
	edgeShort bool // there was not enough
)

// edgeReset makes all the memory available again.
func edgeReset() { edgeNext, edgeShort = 0, false }

// edgeChunk returns a chunk of memory, pages of data between pages nobody may
// touch.
func edgeChunk(i int) []byte {
	if i < len(edgeMem) {
		return edgeMem[i]
	}
	if edgeOff || i >= edgeChunks {
		return nil
	}
	m, err := syscall.Mmap(-1, 0, (2*edgeSlots+1)*edgePage, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		edgeOff = true
		return nil
	}
	for i := 0; i <= 2*edgeSlots; i += 2 {
		if syscall.Mprotect(m[i*edgePage:(i+1)*edgePage], syscall.PROT_NONE) != nil {
			edgeOff = true
			return nil
		}
	}
	edgeMem = append(edgeMem, m)
	return m
}

// edgeAlloc returns n bytes of zeroed memory that end, or start, at the edge.
func edgeAlloc(n int, front bool) unsafe.Pointer {
	if n > edgePage {
		return nil
	}
	c := edgeChunk(edgeNext / edgeSlots)
	if c == nil {
		edgeShort = true
		return nil
	}
	base := (2*(edgeNext%edgeSlots) + 1) * edgePage
	edgeNext++
	pg := c[base : base+edgePage]
	for i := range pg {
		pg[i] = 0
	}
	if front {
		return unsafe.Pointer(&pg[0])
	}
	return unsafe.Add(unsafe.Pointer(&pg[0]), edgePage-n)
}

func edgeBytes(b []byte, front bool) []byte {
	p := edgeAlloc(len(b), front)
	if p == nil {
		return nil
	}
	e := *(*[]byte)(unsafe.Pointer(&struct {
		p    unsafe.Pointer
		n, c int
	}{p, len(b), len(b)}))
	copy(e, b)
	return e
}

// edged moves parts of a value to the edge.
type edged struct {
	r    *rng
	left int
	seen map[hkey]bool
}

func (e *edged) front() bool { return e.r.p(12) }

// isFlat returns whether values of type t have no pointers.
func isFlat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array:
		return t.Len() == 0 || isFlat(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !isFlat(t.Field(i).Type) {
				return false
			}
		}
		return true
	}
	return t.Kind() >= reflect.Bool && t.Kind() <= reflect.Complex128
}

// flat returns a copy of v, which has no pointers, at the edge.
func (e *edged) flat(v reflect.Value) (reflect.Value, bool) {
	t := v.Type()
	if int(t.Size()) > edgePage || e.left <= 0 {
		return v, false
	}
	p := edgeAlloc(int(t.Size()), e.front())
	if p == nil {
		return v, false
	}
	e.left--
	n := reflect.NewAt(t, p).Elem()
	n.Set(v)
	return n, true
}

type efaceWords struct{ typ, word unsafe.Pointer }

// iface returns an interface that holds v, without a copy.
func edgeIface(v reflect.Value) any {
	x := reflect.Zero(v.Type()).Interface()
	(*efaceWords)(unsafe.Pointer(&x)).word = v.Addr().UnsafePointer()
	return x
}

func (e *edged) walk(v reflect.Value, d int) {
	if d > 14 || e.left <= 0 || !v.CanSet() {
		return
	}
	t := v.Type()
	if t == tSyncMap {
		return
	}
	if _, ok := delegTypes[t]; ok {
		e.walk(v.FieldByName("Inner"), d+1)
		return
	}
	switch t.Kind() {
	case reflect.String:
		if e.r.p(75) {
			if b := edgeBytes([]byte(v.String()), e.front()); b != nil {
				e.left--
				v.SetString(*(*string)(unsafe.Pointer(&b)))
			}
		}
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		k := hkey{v.UnsafePointer(), t}
		if e.seen[k] {
			return
		}
		e.seen[k] = true
		if isFlat(t.Elem()) && e.r.p(75) {
			if n, ok := e.flat(v.Elem()); ok {
				v.Set(n.Addr())
				e.seen[hkey{v.UnsafePointer(), t}] = true
			}
			return
		}
		e.walk(v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		x := v.Elem()
		if isFlat(x.Type()) {
			if t.NumMethod() == 0 && x.Type() != tSyncMap && e.r.p(75) {
				if n, ok := e.flat(x); ok {
					*(*any)(v.Addr().UnsafePointer()) = edgeIface(n)
				}
			}
			return
		}
		if x.Kind() == reflect.Pointer {
			if isFlat(x.Type().Elem()) && !x.IsNil() && e.r.p(50) && !e.seen[hkey{x.UnsafePointer(), x.Type()}] {
				e.seen[hkey{x.UnsafePointer(), x.Type()}] = true
				if n, ok := e.flat(x.Elem()); ok {
					v.Set(n.Addr().Convert(x.Type()))
				}
				return
			}
			y := x
			if !y.IsNil() && y.Type().Elem() != tSyncMap {
				k := hkey{y.UnsafePointer(), y.Type()}
				if !e.seen[k] {
					e.seen[k] = true
					e.walk(y.Elem(), d+1)
				}
			}
			return
		}
		if t.NumMethod() == 0 && x.Type().Kind() == reflect.String {
			y := reflect.New(x.Type()).Elem()
			y.Set(x)
			e.walk(y, d+1)
			v.Set(y)
		}
	case reflect.Slice:
		if v.IsNil() || !isFlat(t.Elem()) || !e.r.p(75) {
			for i := 0; i < v.Len() && i < 40; i++ {
				e.walk(v.Index(i), d+1)
			}
			return
		}
		n, sz := v.Len(), int(t.Elem().Size())
		if n*sz > edgePage || e.left <= 0 {
			return
		}
		p := edgeAlloc(n*sz, e.front())
		if p == nil {
			return
		}
		e.left--
		a := reflect.NewAt(reflect.ArrayOf(n, t.Elem()), p).Elem()
		reflect.Copy(a, v)
		s := a.Slice3(0, n, n)
		v.Set(s.Convert(t))
	case reflect.Array:
		for i := 0; i < v.Len() && i < 40; i++ {
			e.walk(v.Index(i), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if sf := t.Field(i); sf.Anonymous && sf.Type.Kind() != reflect.Struct {
				continue
			}
			e.walk(v.Field(i), d+1)
		}
	case reflect.Map:
		if v.IsNil() || t.Key().Kind() != reflect.String {
			return
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		for i, k := range keys {
			if i == 12 || e.left <= 0 {
				break
			}
			nk := reflect.New(t.Key()).Elem()
			nk.Set(k)
			e.walk(nk, d+1)
			x := reflect.New(t.Elem()).Elem()
			x.Set(v.MapIndex(k))
			e.walk(x, d+1)
			v.SetMapIndex(nk, x)
		}
	}
}

// edge moves parts of the value, and the value itself if it has no pointers,
// to the edge. It returns where the value is now.
func edge(root reflect.Value, seed uint64) reflect.Value {
	e := &edged{r: newRng(seed, 13), left: 60, seen: map[hkey]bool{}}
	if isFlat(root.Type()) && root.Type() != tSyncMap {
		n, _ := e.flat(root)
		return n
	}
	e.walk(root, 0)
	return root
}
