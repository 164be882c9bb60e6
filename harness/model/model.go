// Package model holds Go models of standard-library functions whose real bodies depend on the runtime, the
// operating system or assembly. A model is attached to the function it replaces by a //vp:model directive.
package model

import (
	"fmt"
	"io"
	"os"
	"strconv"
)

// RuntimeError stands for run-time panics.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

type plainError string

func (e *plainError) Error() string { return string(*e) }

//vp:model errors.Is
func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

type wrapErr struct {
	msg string
	err error
}

func (e *wrapErr) Error() string { return e.msg }
func (e *wrapErr) Unwrap() error { return e.err }

type wrapErrs struct {
	msg  string
	errs []error
}

func (e *wrapErrs) Error() string   { return e.msg }
func (e *wrapErrs) Unwrap() []error { return e.errs }

//vp:model fmt.Errorf
func Errorf(format string, args ...any) error {
	var es []error
	k := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			i++
			for i+1 < len(format) && (format[i] == '+' || format[i] == '#' || format[i] >= '0' && format[i] <= '9' || format[i] == '.') {
				i++
			}
			if format[i] == '%' {
				continue
			}
			if format[i] == 'w' && k < len(args) {
				if e, ok := args[k].(error); ok {
					es = append(es, e)
				}
			}
			k++
		}
	}
	msg := fmt.Sprintf(format, args...)
	switch len(es) {
	case 0:
		return &wrapErr{msg, nil}
	case 1:
		return &wrapErr{msg, es[0]}
	}
	return &wrapErrs{msg, es}
}

// Output to a file of the operating system has no effect; any other writer receives the text.
//
//vp:model fmt.Fprintf
func Fprintf(w io.Writer, format string, a ...any) (int, error) {
	if _, ok := w.(*os.File); ok {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprintf(format, a...)))
}

//vp:model fmt.Fprint
func Fprint(w io.Writer, a ...any) (int, error) {
	if _, ok := w.(*os.File); ok {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprint(a...)))
}

//vp:model fmt.Fprintln
func Fprintln(w io.Writer, a ...any) (int, error) {
	if _, ok := w.(*os.File); ok {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprintln(a...)))
}

//vp:model fmt.Append
func Append(b []byte, a ...any) []byte { return append(b, fmt.Sprint(a...)...) }

//vp:model fmt.Appendf
func Appendf(b []byte, format string, a ...any) []byte {
	return append(b, fmt.Sprintf(format, a...)...)
}

//vp:model strconv.AppendInt
func AppendInt(b []byte, i int64, base int) []byte { return append(b, strconv.FormatInt(i, base)...) }

//vp:model strconv.AppendUint
func AppendUint(b []byte, i uint64, base int) []byte {
	return append(b, strconv.FormatUint(i, base)...)
}

func anyLen(x any) int                    { panic("model") }
func anySwap(x any, i, j int)             { panic("model") }
func asTarget(err error, target any) bool { panic("model") }

//vp:model sort.Slice
func SortSlice(x any, less func(i, j int) bool) {
	n := anyLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			anySwap(x, j, j-1)
		}
	}
}

//vp:model sort.SliceStable
func SortSliceStable(x any, less func(i, j int) bool) { SortSlice(x, less) }

//vp:model errors.As
func ErrorsAs(err error, target any) bool {
	for err != nil {
		if asTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}
