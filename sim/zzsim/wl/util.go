package wl

import (
	"reflect"
	"unsafe"
)

type uintptrPtr = unsafe.Pointer

func ptrTo(v reflect.Value) unsafe.Pointer { return v.Addr().UnsafePointer() }
