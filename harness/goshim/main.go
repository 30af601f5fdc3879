// Drives the repository's Go package through its public API only. Built as a C shared library.
package main

/*
#include <stdlib.h>
#include <stdint.h>
#include <stddef.h>
typedef const char *cstr;
*/
import "C"

import (
	"strings"
	"sync"
	"unsafe"

	zzzjson "vf/zzzjson"
)

var mu sync.Mutex
var vals []*zzzjson.Value
var allocs []*zzzjson.Allocator
var liveAllocs int
var kept []unsafe.Pointer

func main() {}

func putV(v *zzzjson.Value) C.uintptr_t {
	if v == nil {
		return 0
	}
	mu.Lock()
	defer mu.Unlock()
	vals = append(vals, v)
	return C.uintptr_t(len(vals) * 16)
}

func getV(h C.uintptr_t) *zzzjson.Value {
	mu.Lock()
	defer mu.Unlock()
	return vals[int(h)/16-1]
}

// results handed out earlier, with what they were then
var strs = map[*string]string{}
var bools = map[*bool]bool{}
var types = map[*zzzjson.JSONType]zzzjson.JSONType{}
var changed string

func keepS(s *string) {
	mu.Lock()
	defer mu.Unlock()
	if old, ok := strs[s]; ok && old != *s {
		changed = "a *string was overwritten"
	} else if !ok && len(strs) < 60 && len(*s) < 200 {
		strs[s] = strings.Clone(*s)
	}
}

//export goAudit
func goAudit() C.int {
	mu.Lock()
	defer mu.Unlock()
	for p, v := range strs {
		if *p != v {
			changed = "a *string was overwritten"
		}
	}
	for p, v := range bools {
		if *p != v {
			changed = "a *bool was overwritten"
		}
	}
	for p, v := range types {
		if *p != v {
			changed = "a *JSONType was overwritten"
		}
	}
	clear(strs)
	clear(bools)
	clear(types)
	if changed != "" {
		return 1
	}
	return 0
}

func putS(s *string) C.cstr {
	if s == nil {
		return nil
	}
	keepS(s)
	p := C.malloc(C.size_t(len(*s) + 1))
	b := unsafe.Slice((*byte)(p), len(*s)+1)
	copy(b, *s)
	b[len(*s)] = 0
	mu.Lock()
	kept = append(kept, p)
	mu.Unlock()
	return C.cstr(p)
}

func b2i(b bool) C.int {
	if b {
		return 1
	}
	return 0
}

//export goNewAllocator
func goNewAllocator() C.uintptr_t {
	a := zzzjson.NewAllocator()
	mu.Lock()
	defer mu.Unlock()
	allocs = append(allocs, a)
	liveAllocs++
	return C.uintptr_t(len(allocs) * 16)
}

//export goReleaseAllocator
func goReleaseAllocator(h C.uintptr_t) {
	mu.Lock()
	a := allocs[int(h)/16-1]
	mu.Unlock()
	a.ReleaseAllocator()
	mu.Lock()
	defer mu.Unlock()
	for p, v := range strs { // what was returned does not depend on the allocator either
		if *p != v {
			changed = "a *string changed when its allocator was released"
		}
	}
	liveAllocs--
	if liveAllocs == 0 {
		for _, p := range kept {
			C.free(p)
		}
		kept = kept[:0]
		for i := range vals {
			vals[i] = nil
		}
		for i := range allocs {
			allocs[i] = nil
		}
		vals = vals[:0]
		allocs = allocs[:0]
	}
}

//export goNewValue
func goNewValue(h C.uintptr_t) C.uintptr_t {
	mu.Lock()
	a := allocs[int(h)/16-1]
	mu.Unlock()
	return putV(zzzjson.NewValue(a))
}

//export goParse
func goParse(v C.uintptr_t, s *C.char) C.int { return b2i(getV(v).Parse(C.GoString(s))) }

//export goStringify
func goStringify(v C.uintptr_t) C.cstr { return putS(getV(v).Stringify()) }

//export goGetStr
func goGetStr(v C.uintptr_t) C.cstr { return putS(getV(v).GetStr()) }

//export goGetUnEscapeStr
func goGetUnEscapeStr(v C.uintptr_t) C.cstr { return putS(getV(v).GetUnEscapeStr()) }

//export goGetKey
func goGetKey(v C.uintptr_t) C.cstr { return putS(getV(v).GetKey()) }

//export goGetUnEscapeKey
func goGetUnEscapeKey(v C.uintptr_t) C.cstr { return putS(getV(v).GetUnEscapeKey()) }

//export goGetNum
func goGetNum(v C.uintptr_t) C.cstr { return putS(getV(v).GetNum()) }

//export goGetBool
func goGetBool(v C.uintptr_t) C.int {
	b := getV(v).GetBool()
	if b == nil {
		return -1
	}
	mu.Lock()
	if old, ok := bools[b]; ok && old != *b {
		changed = "a *bool was overwritten"
	} else if !ok && len(bools) < 60 {
		bools[b] = *b
	}
	mu.Unlock()
	return b2i(*b)
}

//export goIsNull
func goIsNull(v C.uintptr_t) C.int { return b2i(getV(v).IsNull()) }

//export goType
func goType(v C.uintptr_t) C.int {
	t := getV(v).Type()
	if t == nil {
		return 0
	}
	mu.Lock()
	if old, ok := types[t]; ok && old != *t {
		changed = "a *JSONType was overwritten"
	} else if !ok && len(types) < 60 {
		types[t] = *t
	}
	mu.Unlock()
	switch *t {
	case zzzjson.JSONTypeBool:
		return 1
	case zzzjson.JSONTypeArray:
		return 2
	case zzzjson.JSONTypeObject:
		return 3
	case zzzjson.JSONTypeString:
		return 4
	case zzzjson.JSONTypeNull:
		return 5
	case zzzjson.JSONTypeNumber:
		return 6
	}
	return -1
}

//export goObjGet
func goObjGet(v C.uintptr_t, k *C.char) C.uintptr_t { return putV(getV(v).ObjGet(C.GoString(k))) }

//export goParseLen
func goParseLen(v C.uintptr_t, s *C.char, n C.int) C.int { return b2i(getV(v).Parse(C.GoStringN(s, n))) }

//export goSetNumStrLen
func goSetNumStrLen(v C.uintptr_t, s *C.char, n C.int) C.int { return b2i(getV(v).SetNumStr(C.GoStringN(s, n))) }

//export goSetStrLen
func goSetStrLen(v C.uintptr_t, s *C.char, n C.int) C.int { return b2i(getV(v).SetStr(C.GoStringN(s, n))) }

//export goSetStrEscapeLen
func goSetStrEscapeLen(v C.uintptr_t, s *C.char, n C.int) C.int { return b2i(getV(v).SetStrEscape(C.GoStringN(s, n))) }

//export goSetKeyLen
func goSetKeyLen(v C.uintptr_t, s *C.char, n C.int) C.int { return b2i(getV(v).SetKey(C.GoStringN(s, n))) }

//export goSetKeyEscapeLen
func goSetKeyEscapeLen(v C.uintptr_t, s *C.char, n C.int) C.int { return b2i(getV(v).SetKeyEscape(C.GoStringN(s, n))) }

//export goObjDelLen
func goObjDelLen(v C.uintptr_t, s *C.char, n C.int) C.int { return b2i(getV(v).ObjDel(C.GoStringN(s, n))) }

//export goObjGetLen
func goObjGetLen(v C.uintptr_t, s *C.char, n C.int) C.uintptr_t { return putV(getV(v).ObjGet(C.GoStringN(s, n))) }

//export goArrayGet
func goArrayGet(v C.uintptr_t, i C.size_t) C.uintptr_t {
	return putV(getV(v).ArrayGet(zzzjson.JSONSize(i)))
}

//export goSize
func goSize(v C.uintptr_t) C.size_t { return C.size_t(getV(v).Size()) }

//export goBegin
func goBegin(v C.uintptr_t) C.uintptr_t { return putV(getV(v).Begin()) }

//export goNext
func goNext(v C.uintptr_t) C.uintptr_t { return putV(getV(v).Next()) }

//export goCopy
func goCopy(v C.uintptr_t) C.uintptr_t { return putV(getV(v).Copy()) }

//export goMove
func goMove(v C.uintptr_t) C.int { return b2i(getV(v).Move()) }

//export goSetNull
func goSetNull(v C.uintptr_t) { getV(v).SetNull() }

//export goSetBool
func goSetBool(v C.uintptr_t, b C.int) { getV(v).SetBool(b != 0) }

//export goSetNumStr
func goSetNumStr(v C.uintptr_t, s *C.char) C.int { return b2i(getV(v).SetNumStr(C.GoString(s))) }

//export goSetStr
func goSetStr(v C.uintptr_t, s *C.char) C.int { return b2i(getV(v).SetStr(C.GoString(s))) }

//export goSetStrEscape
func goSetStrEscape(v C.uintptr_t, s *C.char) C.int { return b2i(getV(v).SetStrEscape(C.GoString(s))) }

//export goSetKey
func goSetKey(v C.uintptr_t, s *C.char) C.int { return b2i(getV(v).SetKey(C.GoString(s))) }

//export goSetKeyEscape
func goSetKeyEscape(v C.uintptr_t, s *C.char) C.int { return b2i(getV(v).SetKeyEscape(C.GoString(s))) }

//export goSetArray
func goSetArray(v C.uintptr_t) { getV(v).SetArray() }

//export goSetObj
func goSetObj(v C.uintptr_t) { getV(v).SetObj() }

//export goSet
func goSet(v, w C.uintptr_t) C.int { return b2i(getV(v).Set(getV(w))) }

//export goSetFast
func goSetFast(v, w C.uintptr_t) C.int { return b2i(getV(v).SetFast(getV(w))) }

//export goObjAdd
func goObjAdd(v, w C.uintptr_t) C.int { return b2i(getV(v).ObjAdd(getV(w))) }

//export goObjAddFast
func goObjAddFast(v, w C.uintptr_t) C.int { return b2i(getV(v).ObjAddFast(getV(w))) }

//export goArrayAdd
func goArrayAdd(v, w C.uintptr_t) C.int { return b2i(getV(v).ArrayAdd(getV(w))) }

//export goArrayAddFast
func goArrayAddFast(v, w C.uintptr_t) C.int { return b2i(getV(v).ArrayAddFast(getV(w))) }

//export goObjDel
func goObjDel(v C.uintptr_t, k *C.char) C.int { return b2i(getV(v).ObjDel(C.GoString(k))) }

//export goArrayDel
func goArrayDel(v C.uintptr_t, i C.size_t) C.int {
	return b2i(getV(v).ArrayDel(zzzjson.JSONSize(i)))
}
