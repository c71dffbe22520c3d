package wl

import (
	"fmt"
	"reflect"
	"sort"
)

// tweak changes a value in place, the same way every time: the memory stays,
// its contents differ. Callers that recycle their values look like this.
func tweak(vs *ValSpec, root reflect.Value, seed uint64) {
	r := newRng(seed, 9)
	g := &gen{r: r, budget: 6, theme: vs.Theme, bad: vs.Bad, plain: vs.Plain, maxDep: 3, smKeys: vs.SMKeys, id: int32(550000 + seed%400*100), pal: newPalette(vs.Pal, vs.Plain)}
	tw := &tweaker{g: g, seen: map[hkey]bool{}}
	tw.walk(root, 0)
	n := 1 + r.n(3)
	if r.p(20) {
		n = 1 + len(tw.cand)/2
	}
	if len(tw.raws) > 0 && r.p(60) {
		tw.raws[r.n(len(tw.raws))]()
		n--
	}
	for ; n > 0 && len(tw.cand) > 0; n-- {
		i := r.n(len(tw.cand))
		tw.cand[i]()
		tw.cand = append(tw.cand[:i], tw.cand[i+1:]...)
	}
}

type tweaker struct {
	g    *gen
	cand []func()
	raws []func() // raw messages, which are worth more
	seen map[hkey]bool
}

func (tw *tweaker) add(f func()) {
	if len(tw.cand) < 400 {
		tw.cand = append(tw.cand, f)
	}
}

func (tw *tweaker) walk(v reflect.Value, d int) {
	if d > 12 || len(tw.cand) >= 400 {
		return
	}
	g, t := tw.g, v.Type()
	if !v.CanSet() {
		return
	}
	if ti := infoOf[t]; ti != nil {
		tw.add(func() { v.Set(reflect.ValueOf(ti.mk(g.nextID()))) })
		return
	}
	if t == tSyncMap {
		return
	}
	if _, ok := delegTypes[t]; ok {
		tw.walk(v.FieldByName("Inner"), d+1)
		return
	}
	switch t {
	case tTime, tDuration, tNumber:
		tw.add(func() { g.fill(v, 3) })
		return
	case tRaw:
		f := func() {
			b := v.Bytes()
			if len(b) == 0 {
				g.fill(v, 3)
				return
			}
			if g.bad && g.r.p(70) {
				if g.r.p(50) {
					copy(b, badRaw[g.r.n(len(badRaw))])
				} else {
					b[g.r.n(len(b))] ^= 1 << g.r.n(8)
				}
				return
			}
			for i, c := range b {
				if c >= '1' && c <= '9' {
					b[i] = byte('1' + (c-'1'+3)%9)
				}
			}
			if len(b) == 2 && b[0] == '{' {
				b[0], b[1] = '[', ']'
			} else if len(b) == 2 && b[0] == '[' {
				b[0], b[1] = '{', '}'
			}
		}
		tw.add(f)
		tw.raws = append(tw.raws, f)
		return
	}
	switch t.Kind() {
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		tw.add(func() { g.fill(v, 3) })
	case reflect.Pointer:
		if v.IsNil() {
			tw.add(func() { g.fill(v, 10) })
			return
		}
		k := hkey{v.UnsafePointer(), t}
		if tw.seen[k] {
			return
		}
		tw.seen[k] = true
		if t.Elem() != tSyncMap && g.r.p(25) {
			tw.add(func() { v.SetZero() })
		}
		tw.walk(v.Elem(), d+1)
	case reflect.Interface:
		if t.NumMethod() > 0 {
			return
		}
		tw.add(func() { g.fillIface(v, t, 10) })
		if !v.IsNil() && v.Elem().Kind() == reflect.Pointer && !v.Elem().IsNil() {
			tw.walk(v.Elem().Elem(), d+1)
		}
	case reflect.Slice:
		if v.IsNil() || v.Len() == 0 {
			tw.add(func() { g.fill(v, 10) })
			return
		}
		if t.Elem().Kind() == reflect.Uint8 && infoOf[t.Elem()] == nil {
			tw.add(func() {
				if v.Len() > 0 {
					e := v.Index(g.r.n(v.Len()))
					e.SetUint(uint64('a' + g.r.n(26)))
				}
			})
			return
		}
		tw.add(func() { v.SetLen(v.Len() - v.Len()/2) })
		if v.Len() > 1 && t.Elem() != tSyncMap {
			tw.add(func() {
				if v.Len() > 1 {
					a, b := v.Index(0), v.Index(v.Len()-1)
					x := reflect.New(t.Elem()).Elem()
					x.Set(a)
					a.Set(b)
					b.Set(x)
				}
			})
		}
		for i := 0; i < v.Len(); i++ {
			tw.walk(v.Index(i), d+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			tw.walk(v.Index(i), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if sf := t.Field(i); sf.Anonymous && sf.Type.Kind() != reflect.Struct {
				continue
			}
			tw.walk(v.Field(i), d+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := t.Key()
		if infoOf[k] != nil || k.Kind() != reflect.String && (k.Kind() < reflect.Int || k.Kind() > reflect.Uintptr) {
			return
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return mapKeyText(keys[i]) < mapKeyText(keys[j]) })
		for i, key := range keys {
			if i == 10 {
				break
			}
			key := key
			tw.add(func() {
				if v.IsNil() {
					return
				}
				switch g.r.n(3) {
				case 0:
					v.SetMapIndex(key, reflect.Value{})
				default:
					e := reflect.New(t.Elem()).Elem()
					g.fill(e, 10)
					v.SetMapIndex(key, e)
				}
			})
		}
		tw.add(func() {
			if v.IsNil() {
				return
			}
			nk := reflect.New(k).Elem()
			g.key(nk)
			if !v.MapIndex(nk).IsValid() {
				e := reflect.New(t.Elem()).Elem()
				g.fill(e, 10)
				v.SetMapIndex(nk, e)
			}
		})
	}
}

func mapKeyText(v reflect.Value) string {
	if v.Kind() == reflect.String {
		return v.String()
	}
	return fmt.Sprint(v.Interface())
}

// home is memory for values that a caller recycles.
type home struct {
	spec    ValSpec
	root    reflect.Value
	applied []uint64
	sum     *hashed
}

// load changes the value in the home to the given one, in place if possible.
func (h *home) load(vs *ValSpec) (any, bool) {
	same := h.root.IsValid() && h.spec.Type == vs.Type && h.spec.Seed == vs.Seed && h.spec.Ptr == vs.Ptr && h.spec.Size == vs.Size && len(h.applied) <= len(vs.Tweaks)
	for i := 0; same && i < len(h.applied); i++ {
		same = h.applied[i] == vs.Tweaks[i]
	}
	if !same {
		h.spec = *vs
		h.applied = nil
		h.root = vs.base()
	}
	recycled := same
	for _, s := range vs.Tweaks[len(h.applied):] {
		tweak(vs, h.root, s)
		h.applied = append(h.applied, s)
	}
	v := h.root.Interface()
	if vs.Ptr {
		v = h.root.Addr().Interface()
	}
	h.sum = hashValue(v, nil)
	return v, recycled
}

// base builds the value without the changes.
func (vs *ValSpec) base() reflect.Value {
	v := reflect.New(vs.Type.Type()).Elem()
	g := &gen{r: newRng(vs.Seed, 5), budget: vs.Size, theme: vs.Theme, bad: vs.Bad, plain: vs.Plain, maxDep: 12, smKeys: vs.SMKeys, pal: newPalette(vs.Pal, vs.Plain)}
	if vs.Deep > 0 {
		g.deep, g.maxDep = true, vs.Deep
	}
	g.wide, g.big, g.share = vs.Wide, vs.Big, vs.Share
	g.fill(v, 0)
	if vs.Edge {
		return edge(v, vs.Seed)
	}
	return v
}
