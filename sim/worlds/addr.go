package worlds

import (
	"reflect"
	"unsafe"
)

// stringAddr is where the bytes of the string lie.
func stringAddr(s string) uintptr {
	return (*reflect.StringHeader)(unsafe.Pointer(&s)).Data
}
