package vsched

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"unsafe"
)

// Monitoring of plain memory: packages instrumented in mode race call RD, WR
// and the like for every access to a member, package variable, element or
// shared local. Two accesses of one address, at least one a write and at
// least one not atomic, that no synchronisation orders are a data race,
// whatever their order in this schedule.

type access struct {
	thread        int
	write, atomic bool
	clock         uint32
	site          string
}

// cell has the last accesses of each kind by each thread.
type cell struct {
	last []access
	one  [1]access
}

// Racing turns the monitoring on.
var Racing bool

// RaceChecks counts the monitored accesses of all runs.
var RaceChecks int64

func (r *Run) access1(p unsafe.Pointer, name, site string, write, atomic bool) {
	t := r.cur
	RaceChecks++
	c := r.cells[p]
	if c == nil {
		if r.cells == nil {
			r.cells = map[unsafe.Pointer]*cell{}
		}
		c = &cell{}
		c.last = c.one[:0]
		r.cells[p] = c
	}
	own := -1
	for i := range c.last {
		k := &c.last[i]
		if k.thread == t.ID && k.write == write && k.atomic == atomic {
			own = i
		}
		if k.thread == t.ID || !write && !k.write || atomic && k.atomic {
			continue
		}
		if t.vc.at(k.thread) < k.clock {
			r.fail("race "+name, fmt.Sprintf("unsynchronised access to %s: %s at %s in %s against the %s at %s in %s", name,
				verb(write, atomic), site, t.Name, verb(k.write, k.atomic), k.site, r.threads[k.thread].Name))
			r.stop(t)
			return
		}
	}
	a := access{t.ID, write, atomic, t.vc.at(t.ID), site}
	switch {
	case write && !atomic: // everything before is ordered before it
		c.last = append(c.last[:0], a)
	case own >= 0:
		c.last[own] = a
	default:
		c.last = append(c.last, a)
	}
}

func verb(write, atomic bool) string {
	s := "read"
	if write {
		s = "write"
	}
	if atomic {
		s = "atomic " + s
	}
	return s
}

// AtomicAccess is an access by an atomic operation.
func AtomicAccess(p unsafe.Pointer, what string, write bool) {
	if r := current; r != nil && !r.dead && Racing {
		r.access1(p, "an atomic word", what, write, true)
	}
}

// leaves are the offsets of the words that a copy of a type reads.
var leafCache = map[reflect.Type][]uintptr{}

func leaves(t reflect.Type) []uintptr {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var l []uintptr
	var walk func(t reflect.Type, at uintptr)
	walk = func(t reflect.Type, at uintptr) {
		if len(l) > 4096 || t.Size() == 0 {
			return
		}
		switch t.Kind() {
		case reflect.Struct:
			if p := t.PkgPath(); strings.Contains(p, "vsched/") || p == "sync" || p == "sync/atomic" {
				return
			}
			for i := 0; i < t.NumField(); i++ {
				if f := t.Field(i); f.Name != "_" {
					walk(f.Type, at+f.Offset)
				}
			}
		case reflect.Array:
			for i := 0; i < t.Len(); i++ {
				walk(t.Elem(), at+uintptr(i)*t.Elem().Size())
			}
		default:
			l = append(l, at)
		}
	}
	walk(t, 0)
	leafCache[t] = l
	return l
}

func accessAll[T any](p *T, name, site string, write bool) {
	r := current
	if r == nil || r.dead || p == nil || !Racing {
		return
	}
	switch any(p).(type) {
	case *byte, *int, *int32, *int64, *uint16, *uint32, *uint64, *string, *bool, *[]byte:
		r.access1(unsafe.Pointer(p), name, site, write, false)
		return
	}
	for _, o := range leaves(reflect.TypeOf(p).Elem()) {
		if r.dead {
			return
		}
		r.access1(unsafe.Add(unsafe.Pointer(p), o), name, site, write, false)
	}
}

// RD is a read of *p.
func RD[T any](p *T, name, site string) *T {
	accessAll(p, name, site, false)
	return p
}

// WR is a write of *p.
func WR[T any](p *T, name, site string) *T {
	accessAll(p, name, site, true)
	return p
}

// RS is a read of all elements of a slice.
func RS[S ~[]E, E any](s S, name, site string) S {
	elements(s, name, site, false)
	return s
}

// WS is a write of all elements of a slice.
func WS[S ~[]E, E any](s S, name, site string) S {
	elements(s, name, site, true)
	return s
}

// AP is an append of n elements (-1: some) to a slice.
func AP[S ~[]E, E any](s S, n int, name, site string) S {
	if r := current; r != nil && !r.dead && Racing && cap(s) > len(s) {
		if n < 0 {
			n = 1
		}
		if len(s)+n <= cap(s) {
			elements(s[len(s):len(s)+n], name, site, true)
		}
	}
	return s
}

// Copy is the builtin.
func Copy[S ~[]E, R ~[]E, E any](d S, s R, name, site string) int {
	n := min(len(d), len(s))
	elements(s[:n], name, site, false)
	elements(d[:n], name, site, true)
	return copy(d, s)
}

func elements[S ~[]E, E any](s S, name, site string, write bool) {
	if r := current; r != nil && !r.dead && Racing {
		small := len(s) == 0 || unsafe.Sizeof(s[0]) <= 4
		for i := range s {
			if i > 256 || small && i > 32 && i%16 != 0 && i != len(s)-1 {
				continue // of long ones only some
			}
			accessAll(&s[i], name, site, write)
		}
	}
}

// OR and OW are a reading and a changing method of an object that does not
// synchronise itself.
func OR[T any](p *T, name, site string) *T {
	object(p, name, site, false)
	return p
}

// OW is a changing method.
func OW[T any](p *T, name, site string) *T {
	object(p, name, site, true)
	return p
}

func object[T any](p *T, name, site string, write bool) {
	if r := current; r != nil && !r.dead && p != nil && Racing {
		r.access1(unsafe.Pointer(p), name, site, write, false)
		if x, ok := any(p).(*big.Int); ok && !r.dead {
			if b := x.Bits(); len(b) > 0 {
				r.access1(unsafe.Pointer(&b[0]), name, site, write, false)
			}
		}
	}
}

// OI is a method of an object behind an interface.
func OI[T any](write bool, v T, name, site string) T {
	if r := current; r != nil && !r.dead && Racing {
		if p := reflect.ValueOf(v); p.Kind() == reflect.Pointer && !p.IsNil() {
			r.access1(p.UnsafePointer(), name, site, write, false)
		}
	}
	return v
}
