package rt

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"unsafe"
)

// The real iterator of the Go runtime does the iteration; what it yields is
// collected, brought into a canonical order and permuted as the simulator
// decides, then served one entry at a time through the caller's iterator.

//go:linkname realMapIterInit reflect.mapiterinit
func realMapIterInit(t, m unsafe.Pointer, it unsafe.Pointer)

//go:linkname realMapIterNext reflect.mapiternext
func realMapIterNext(it unsafe.Pointer)

type simIter struct {
	magic uint64
	kv    []pair
	pos   int
}

type pair struct {
	k, v unsafe.Pointer
	c    string
	n    int64
}

const iterMagic = 0x51a7e1717e4a7041

type eface struct{ typ, word unsafe.Pointer }

func typeOf(t unsafe.Pointer) reflect.Type {
	var e any
	(*eface)(unsafe.Pointer(&e)).typ = t
	return reflect.TypeOf(e)
}

// word returns the i-th word of the caller's hiter.
//
//go:norace
func word(it unsafe.Pointer, i uintptr) *unsafe.Pointer {
	return (*unsafe.Pointer)(unsafe.Pointer(uintptr(it) + i*unsafe.Sizeof(uintptr(0))))
}

//go:norace
func MapIterInit(t, m, it unsafe.Pointer) {
	if cur == nil {
		// Outside a simulated task (reference and warm-up calls) the
		// order is canonical.
		collect(t, m, it)
		return
	}
	s.st.MapIters++
	Sync(0, 40)
	si := collect(t, m, it)
	if len(si.kv) < 2 {
		return
	}
	if seed := Env(KMapOrder, s.cfg.MapPerm, 0); seed != 0 {
		permute(si.kv, uint64(seed))
		serve(it, si)
	}
}

//go:norace
func serve(it unsafe.Pointer, si *simIter) {
	if si.pos < len(si.kv) {
		*word(it, 0) = si.kv[si.pos].k
		*word(it, 1) = si.kv[si.pos].v
	} else {
		*word(it, 0) = nil
		*word(it, 1) = nil
	}
}

//go:norace
func permute(kv []pair, seed uint64) {
	x := seed*0x9e3779b97f4a7c15 + 1
	for i := len(kv) - 1; i > 0; i-- {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		j := int(x % uint64(i+1))
		kv[i], kv[j] = kv[j], kv[i]
	}
}

//go:norace
func collect(t, m, it unsafe.Pointer) *simIter {
	realMapIterInit(t, m, it)
	si := &simIter{magic: iterMagic}
	for *word(it, 0) != nil {
		si.kv = append(si.kv, pair{k: *word(it, 0), v: *word(it, 1)})
		realMapIterNext(it)
	}
	if len(si.kv) > 1 {
		canonical(typeOf(t), si.kv)
	}
	*word(it, 2) = unsafe.Pointer(si)
	serve(it, si)
	return si
}

//go:norace
func MapIterNext(it unsafe.Pointer) {
	p := *word(it, 2)
	if p == nil {
		panic("zzsim: iteration with an iterator that was reset")
	}
	si := (*simIter)(p)
	if si.magic != iterMagic {
		panic("zzsim: iteration with a corrupted iterator")
	}
	si.pos++
	serve(it, si)
}

func canonical(mt reflect.Type, kv []pair) {
	kt, vt := mt.Key(), mt.Elem()
	num := false
	for i := range kv {
		v := reflect.NewAt(kt, kv[i].k).Elem()
		switch kt.Kind() {
		case reflect.String:
			kv[i].c = v.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			kv[i].n = v.Int()
			num = true
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			kv[i].n = int64(v.Uint())
			num = true
		default:
			kv[i].c = CanonKey(v, 0)
		}
	}
	if num {
		sort.Slice(kv, func(i, j int) bool { return kv[i].n < kv[j].n })
	} else {
		sort.Slice(kv, func(i, j int) bool { return kv[i].c < kv[j].c })
		for i := 0; i < len(kv); i++ {
			j := i + 1
			for j < len(kv) && kv[j].c == kv[i].c {
				j++
			}
			if j > i+1 {
				// Keys of equal content (pointers): order by the values.
				sub := kv[i:j]
				for k := range sub {
					sub[k].c = CanonKey(reflect.NewAt(vt, sub[k].v).Elem(), 0)
				}
				sort.Slice(sub, func(i, j int) bool { return sub[i].c < sub[j].c })
			}
			i = j - 1
		}
	}
}

// CanonKey renders a map key by content, never by address.
func CanonKey(v reflect.Value, depth int) string {
	if depth > 6 || !v.IsValid() {
		return "?"
	}
	switch v.Kind() {
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return v.Elem().Type().String() + ":" + CanonKey(v.Elem(), depth+1)
	case reflect.Struct:
		o := "{"
		for i := 0; i < v.NumField(); i++ {
			o += CanonKey(v.Field(i), depth+1) + ","
		}
		return o + "}"
	case reflect.Array, reflect.Slice:
		o := "["
		for i := 0; i < v.Len(); i++ {
			o += CanonKey(v.Index(i), depth+1) + ","
		}
		return o + "]"
	}
	return fmt.Sprint(v.Kind())
}
