package vs

import (
	"reflect"
	"strings"
	"sync"
	"unsafe"
)

// The package variables of the code under test, registered by the rewritten sources. Every execution of an
// exploration starts from the values they have when the exploration starts.
type globalVars struct {
	module   string
	assigned []any // pointers to the variables
	other    []any // never assigned: only what they refer to can change
}

var globals []globalVars

// Globals registers package variables.
func Globals(module string, assigned, other []any) {
	globals = append(globals, globalVars{module, assigned, other})
}

type snapshot struct {
	module string
	seen   map[seenKey]bool
	undo   []func()
}

type seenKey struct {
	p unsafe.Pointer
	t reflect.Type
}

// takeSnapshot returns a function that gives the variables their present values back.
func takeSnapshot() func() {
	s := &snapshot{seen: map[seenKey]bool{}}
	for _, g := range globals {
		s.module = g.module
		for _, p := range g.assigned {
			s.whole(reflect.ValueOf(p).Elem())
		}
		for _, p := range g.other {
			s.refs(reflect.ValueOf(p).Elem())
		}
	}
	return func() {
		for _, f := range s.undo {
			f()
		}
	}
}

var syncMapType = reflect.TypeOf(sync.Map{})

// whole saves v, which is addressable, and what it refers to.
func (s *snapshot) whole(v reflect.Value) {
	k := seenKey{v.Addr().UnsafePointer(), v.Type()}
	if s.seen[k] {
		return
	}
	s.seen[k] = true
	old := reflect.New(v.Type()).Elem()
	old.Set(v)
	s.undo = append(s.undo, func() { v.Set(old) })
	s.refs(v)
}

// ours tells whether the values of type t behind a pointer are part of the state.
func (s *snapshot) ours(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "" || p == s.module || strings.HasPrefix(p, s.module+"/") || strings.HasPrefix(p, "verif/vs/v") || p == "bytes" || p == "strings" || p == "container/list" || p == "container/ring" || p == "math/rand"
}

func (s *snapshot) refs(v reflect.Value) {
	if !v.CanAddr() {
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		v = c
	}
	t := v.Type()
	if t == syncMapType {
		m := v.Addr().Interface().(*sync.Map)
		var keys, vals []any
		m.Range(func(k, x any) bool {
			keys, vals = append(keys, k), append(vals, x)
			s.refs(reflect.ValueOf(&x).Elem())
			return true
		})
		s.undo = append(s.undo, func() {
			m.Range(func(k, _ any) bool { m.Delete(k); return true })
			for i := range keys {
				m.Store(keys[i], vals[i])
			}
		})
		return
	}
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			s.refs(reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem())
		}
	case reflect.Array:
		if plain(t.Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.refs(v.Index(i))
		}
	case reflect.Interface:
		if !v.IsNil() {
			s.refs(v.Elem())
		}
	case reflect.Pointer:
		if !v.IsNil() && s.ours(t.Elem()) {
			s.whole(v.Elem())
		}
	case reflect.Slice:
		k := seenKey{v.UnsafePointer(), t}
		if v.Len() == 0 || s.seen[k] {
			return
		}
		s.seen[k] = true
		cur := reflect.New(t).Elem()
		cur.Set(v)
		old := reflect.MakeSlice(t, v.Len(), v.Len())
		reflect.Copy(old, v)
		s.undo = append(s.undo, func() { reflect.Copy(cur, old) })
		if !plain(t.Elem()) {
			for i := 0; i < v.Len(); i++ {
				s.refs(v.Index(i))
			}
		}
	case reflect.Map:
		k := seenKey{v.UnsafePointer(), t}
		if v.IsNil() || s.seen[k] {
			return
		}
		s.seen[k] = true
		m := reflect.New(t).Elem()
		m.Set(v)
		var keys, vals []reflect.Value
		for it := v.MapRange(); it.Next(); {
			keys, vals = append(keys, it.Key()), append(vals, it.Value())
			s.refs(it.Value())
		}
		s.undo = append(s.undo, func() {
			m.Clear()
			for i := range keys {
				m.SetMapIndex(keys[i], vals[i])
			}
		})
	}
}

// plain tells that values of type t refer to nothing.
func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct, reflect.Array, reflect.Interface, reflect.Pointer, reflect.Slice, reflect.Map:
		return false
	}
	return true
}
