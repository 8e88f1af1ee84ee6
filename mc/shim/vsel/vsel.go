// Package vsel replaces select statements in the copy of the code under test,
// so that the explorer decides which of several ready cases is taken.
package vsel

import "reflect"

// Rank orders the ready cases by the type of what they carry ("error",
// "time.Time", ...); the lowest rank wins. While it is nil the runtime chooses.
var Rank func(elem string, i int) int

// Case is one communication.
type Case interface {
	try() bool
	sel() reflect.SelectCase
	set(v reflect.Value, ok bool)
	elem() string
}

// Recv is a receive case.
type Recv[T any] struct {
	c  reflect.Value
	V  T
	OK bool
}

// R makes a receive case.
func R[C ~<-chan T | ~chan T, T any](c C) *Recv[T] { return &Recv[T]{c: reflect.ValueOf(c)} }

func (r *Recv[T]) try() bool {
	i, v, ok := reflect.Select([]reflect.SelectCase{r.sel(), {Dir: reflect.SelectDefault}})
	if i == 0 {
		r.set(v, ok)
	}
	return i == 0
}
func (r *Recv[T]) sel() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: r.c}
}
func (r *Recv[T]) set(v reflect.Value, ok bool) {
	r.OK = ok
	if ok {
		r.V, _ = v.Interface().(T)
	}
}
func (r *Recv[T]) elem() string { return reflect.TypeFor[T]().String() }

// Send is a send case.
type Send[T any] struct{ c, v reflect.Value }

// S makes a send case.
func S[C ~chan<- T | ~chan T, T any](c C, v T) *Send[T] {
	return &Send[T]{reflect.ValueOf(c), reflect.ValueOf(&v).Elem()}
}

func (s *Send[T]) try() bool {
	i, _, _ := reflect.Select([]reflect.SelectCase{s.sel(), {Dir: reflect.SelectDefault}})
	return i == 0
}
func (s *Send[T]) sel() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: s.c, Send: s.v}
}
func (s *Send[T]) set(reflect.Value, bool) {}
func (s *Send[T]) elem() string            { return reflect.TypeFor[T]().String() }

// Pick performs one of the cases and returns its index.
func Pick(cs ...Case) int {
	if f := Rank; f != nil {
		order := make([]int, len(cs))
		rank := make([]int, len(cs))
		for i, c := range cs {
			order[i], rank[i] = i, f(c.elem(), i)
		}
		for i := 1; i < len(order); i++ { // stable insertion sort
			for j := i; j > 0 && rank[order[j]] < rank[order[j-1]]; j-- {
				order[j], order[j-1] = order[j-1], order[j]
			}
		}
		for _, i := range order {
			if cs[i].try() {
				return i
			}
		}
	}
	sc := make([]reflect.SelectCase, len(cs))
	for i, c := range cs {
		sc[i] = c.sel()
	}
	i, v, ok := reflect.Select(sc)
	cs[i].set(v, ok)
	return i
}
