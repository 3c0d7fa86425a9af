// Package vpm holds models of library functions that the symbolic executor
// uses instead of the originals (never used in the native build).
package vpm

import (
	"context"
	"io"
	"runtime/pprof"
	"time"
)

// RuntimeError stands for the runtime's own panics.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

func point() {}

// ---- context ----

type cancelCtx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	children []*cancelCtx
	after    []*afterFunc
}

func (c *cancelCtx) Deadline() (time.Time, bool) { return c.parent.Deadline() }
func (c *cancelCtx) Done() <-chan struct{}       { return c.done }
func (c *cancelCtx) Err() error                  { return c.err }
func (c *cancelCtx) Value(key any) any           { return c.parent.Value(key) }

func (c *cancelCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	c.cause = cause
	close(c.done)
	kids := c.children
	c.children = nil
	after := c.after
	c.after = nil
	for _, a := range after {
		a.fire()
	}
	for _, k := range kids {
		k.cancel(err, cause)
	}
	if p := ancestor(c.parent); p != nil {
		var l []*cancelCtx
		for _, k := range p.children {
			if k != c {
				l = append(l, k)
			}
		}
		p.children = l
	}
}

func ancestor(c context.Context) *cancelCtx {
	for {
		switch x := c.(type) {
		case *cancelCtx:
			return x
		case *valueCtx:
			c = x.parent
		default:
			return nil
		}
	}
}

func newCancel(parent context.Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	if p := ancestor(parent); p != nil {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCancel(parent)
	return c, func() {
		point()
		c.cancel(context.Canceled, nil)
	}
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) {
		point()
		c.cancel(context.Canceled, cause)
	}
}

// WithTimeout and WithDeadline: the deadline never passes within the bound.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithCancel(parent)
}
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithCancel(parent)
}

func Cause(c context.Context) error {
	if p := ancestor(c); p != nil {
		if p.cause != nil {
			return p.cause
		}
		return p.err
	}
	return nil
}

type noCancel struct{ context.Context }

func (c noCancel) Done() <-chan struct{}                   { return nil }
func (c noCancel) Err() error                              { return nil }
func (c noCancel) Deadline() (deadline time.Time, ok bool) { return }

// AfterFunc runs f in its own goroutine once the context is done.
func AfterFunc(ctx context.Context, f func()) func() bool {
	a := &afterFunc{f: f}
	p := ancestor(ctx)
	switch {
	case p == nil:
	case p.err != nil:
		a.fire()
	default:
		p.after = append(p.after, a)
	}
	return func() bool {
		point()
		if a.spent {
			return false
		}
		a.spent = true
		return p != nil
	}
}

type afterFunc struct {
	f     func()
	spent bool
}

func (a *afterFunc) fire() {
	if !a.spent {
		a.spent = true
		go a.f()
	}
}

func WithoutCancel(parent context.Context) context.Context { return noCancel{parent} }

type valueCtx struct {
	parent   context.Context
	key, val any
}

func (c *valueCtx) Deadline() (time.Time, bool) { return c.parent.Deadline() }
func (c *valueCtx) Done() <-chan struct{}       { return c.parent.Done() }
func (c *valueCtx) Err() error                  { return c.parent.Err() }
func (c *valueCtx) Value(key any) any {
	if key == c.key {
		return c.val
	}
	return c.parent.Value(key)
}

func WithValue(parent context.Context, key, val any) context.Context {
	return &valueCtx{parent, key, val}
}

// ---- pprof ----

func PprofLabels(args ...string) pprof.LabelSet {
	if len(args)%2 != 0 {
		panic("uneven number of arguments to pprof.Labels")
	}
	return pprof.LabelSet{}
}

func PprofDo(ctx context.Context, labels pprof.LabelSet, f func(context.Context)) {
	f(ctx)
}

// ---- errors ----

func comparable_(e any) bool              { return true }
func assignTo(err error, target any) bool { return false }

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return is(err, target, comparable_(target))
}

func is(err, target error, cmp bool) bool {
	for {
		if cmp && comparable_(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && is(e, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func ErrorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	if target == nil {
		panic("errors: target cannot be nil")
	}
	for {
		if assignTo(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

type joinError struct{ errs []error }

func (e *joinError) Error() string {
	s := ""
	for i, x := range e.errs {
		if i > 0 {
			s += "\n"
		}
		s += x.Error()
	}
	return s
}
func (e *joinError) Unwrap() []error { return e.errs }

func ErrorsJoin(errs ...error) error {
	e := &joinError{}
	for _, x := range errs {
		if x != nil {
			e.errs = append(e.errs, x)
		}
	}
	if len(e.errs) == 0 {
		return nil
	}
	return e
}

// ---- fmt ----

func typeName(v any) string             { return "" }
func scalar(v any) (kind, text string)  { return "", "" }
func sliceStrings(v any) (string, bool) { return "", false }

func show(v any, verb byte) string {
	switch x := v.(type) {
	case error:
		if verb == 'q' {
			return "\"" + x.Error() + "\""
		}
		return x.Error()
	case interface{ String() string }:
		if verb == 'v' || verb == 's' {
			return x.String()
		}
	}
	kind, text := scalar(v)
	if kind == "s" && verb == 'q' {
		return "\"" + text + "\""
	}
	if kind != "" {
		return text
	}
	if s, ok := sliceStrings(v); ok {
		return s
	}
	return "{" + typeName(v) + "}"
}

func Sprintf(format string, args ...any) string {
	out := ""
	n := 0
	start := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		out += format[start:i]
		i++
		for i < len(format) && (format[i] == '#' || format[i] == '+' || format[i] == '-' || format[i] == ' ' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
			i++
		}
		if i >= len(format) {
			start = i
			break
		}
		c := format[i]
		start = i + 1
		if c == '%' {
			out += "%"
			continue
		}
		if n >= len(args) {
			out += "%!(MISSING)"
			continue
		}
		a := args[n]
		n++
		if c == 'T' {
			out += typeName(a)
			continue
		}
		if c == 'p' {
			out += "0xptr"
			continue
		}
		out += show(a, c)
	}
	if start < len(format) {
		out += format[start:]
	}
	return out
}

func Sprint(args ...any) string {
	out := ""
	for i, a := range args {
		if i > 0 {
			k1, _ := scalar(args[i-1])
			k2, _ := scalar(a)
			if k1 != "s" && k2 != "s" {
				out += " "
			}
		}
		out += show(a, 'v')
	}
	return out
}

func Sprintln(args ...any) string {
	out := ""
	for i, a := range args {
		if i > 0 {
			out += " "
		}
		out += show(a, 'v')
	}
	return out + "\n"
}

func Fprintf(w io.Writer, format string, args ...any) (int, error) {
	return w.Write([]byte(Sprintf(format, args...)))
}
func Fprint(w io.Writer, args ...any) (int, error)   { return w.Write([]byte(Sprint(args...))) }
func Fprintln(w io.Writer, args ...any) (int, error) { return w.Write([]byte(Sprintln(args...))) }
func Printf(format string, args ...any) (int, error) { return 0, nil }
func Print(args ...any) (int, error)                 { return 0, nil }

// ---- sort ----

func length(x any) int     { return 0 }
func swap(x any, i, j int) {}

func SortSlice(x any, less func(i, j int) bool) {
	n := length(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(x, j, j-1)
		}
	}
}

func SliceIsSorted(x any, less func(i, j int) bool) bool {
	for i := length(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

func SortInts(l []int) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// ---- sync.Map, sync.Pool ----

type SyncMap struct{ m map[any]any }

func (s *SyncMap) init() {
	if s.m == nil {
		s.m = map[any]any{}
	}
}

func MapLoad(s *SyncMap, k any) (any, bool) { point(); v, ok := s.m[k]; return v, ok }
func MapStore(s *SyncMap, k, v any)         { point(); s.init(); s.m[k] = v }
func MapLoadOrStore(s *SyncMap, k, v any) (any, bool) {
	point()
	s.init()
	if o, ok := s.m[k]; ok {
		return o, true
	}
	s.m[k] = v
	return v, false
}
func MapLoadAndDelete(s *SyncMap, k any) (any, bool) {
	point()
	v, ok := s.m[k]
	delete(s.m, k)
	return v, ok
}
func MapDelete(s *SyncMap, k any) { point(); delete(s.m, k) }
func MapSwap(s *SyncMap, k, v any) (any, bool) {
	point()
	s.init()
	o, ok := s.m[k]
	s.m[k] = v
	return o, ok
}
func MapCompareAndSwap(s *SyncMap, k, o, n any) bool {
	point()
	if v, ok := s.m[k]; ok && v == o {
		s.m[k] = n
		return true
	}
	return false
}
func MapRange(s *SyncMap, f func(k, v any) bool) {
	point()
	for k, v := range s.m {
		if !f(k, v) {
			return
		}
	}
}
func MapClear(s *SyncMap) { point(); s.m = nil }

func poolNew(p *byte) func() any { return nil }

func PoolGet(p *byte) any {
	if f := poolNew(p); f != nil {
		return f()
	}
	return nil
}
func PoolPut(p *byte, v any) {}

type fmtError struct{ s string }

func (e *fmtError) Error() string { return e.s }

type wrapError struct {
	s   string
	err error
}

func (e *wrapError) Error() string { return e.s }
func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	s    string
	errs []error
}

func (e *wrapErrors) Error() string   { return e.s }
func (e *wrapErrors) Unwrap() []error { return e.errs }

func Errorf(format string, args ...any) error {
	s := Sprintf(format, args...)
	var errs []error
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (format[i] == '#' || format[i] == '+' || format[i] == '-' || format[i] == ' ' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
			i++
		}
		if i >= len(format) || format[i] == '%' {
			continue
		}
		if format[i] == 'w' && n < len(args) {
			if e, ok := args[n].(error); ok {
				errs = append(errs, e)
			}
		}
		n++
	}
	switch len(errs) {
	case 0:
		return &fmtError{s}
	case 1:
		return &wrapError{s, errs[0]}
	}
	return &wrapErrors{s, errs}
}
