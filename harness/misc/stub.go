package misc

import (
	"errors"

	deptesting "github.com/juju/worker/v4/dependency/testing"
	"github.com/juju/worker/v4/zzverif/vp"
)

type (
	num   int
	thing struct{ n int }
	named interface{ Name() string }
	fn    func() int
)

func (t *thing) Name() string { return "thing" }

var (
	errStub = errors.New("stub")
	theFn   = func() int { return 7 }
)

// output is a configured output: any of these types, with any value.
type output struct {
	kind int
	n    int
	t    *thing
	v    interface{}
}

const outputKinds = 9

func pickOutput(kinds int) output {
	o := output{kind: vp.Pick("output", kinds)}
	switch o.kind {
	case 0:
		o.n = vp.Int("int", -1<<62, 1<<62)
		o.v = o.n
	case 1:
		o.n = vp.Int("num", -1<<62, 1<<62)
		o.v = num(o.n)
	case 2:
		o.n = vp.Int("uint8", 0, 255)
		o.v = uint8(o.n)
	case 3:
		o.v = "text"
	case 4:
		o.t = &thing{3}
		o.v = o.t
	case 5:
		o.n = vp.Int("thing", -9, 9)
		o.v = thing{o.n}
	case 6:
		o.v = theFn
	case 7:
		o.v = []byte("bytes")
	case 8:
		o.v = nil
	}
	return o
}

const targets = 9

// want is a pointer of one of the types an output is stored into.
type want struct {
	kind int
	i    int
	n    num
	i8   int8
	s    string
	t    *thing
	st   thing
	nm   named
	any  interface{}
	fn   fn
	ptr  interface{}
}

func pickWant() *want {
	w := &want{kind: vp.Pick("target", targets)}
	switch w.kind {
	case 0:
		w.ptr = &w.i
	case 1:
		w.ptr = &w.n
	case 2:
		w.ptr = &w.i8
	case 3:
		w.ptr = &w.s
	case 4:
		w.ptr = &w.t
	case 5:
		w.ptr = &w.st
	case 6:
		w.ptr = &w.nm
	case 7:
		w.ptr = &w.any
	case 8:
		w.ptr = &w.fn
	}
	return w
}

// accepts: is an output of the kind convertible to the target, by the rules of
// the language.
func (w *want) accepts(o output) bool {
	integer := o.kind <= 2
	switch w.kind {
	case 0, 1, 2:
		return integer
	case 3:
		return integer || o.kind == 3 || o.kind == 7
	case 4, 6:
		return o.kind == 4
	case 5:
		return o.kind == 5
	case 7:
		return o.kind != 8
	}
	return o.kind == 6
}

func (w *want) untouched() bool {
	return w.i == 0 && w.n == 0 && w.i8 == 0 && w.s == "" && w.t == nil && w.st.n == 0 && w.nm == nil && w.any == nil && w.fn == nil
}

// holds: the target holds the output converted to its type.
func (w *want) holds(o output) bool {
	switch w.kind {
	case 0:
		return w.i == o.n
	case 1:
		return w.n == num(o.n)
	case 2:
		return w.i8 == int8(o.n)
	case 3:
		switch o.kind {
		case 3:
			return w.s == "text"
		case 7:
			return w.s == "bytes"
		}
		return w.s == string(rune(o.n))
	case 4:
		return w.t == o.t
	case 5:
		return w.st.n == o.n
	case 6:
		return w.nm == named(o.t)
	case 7:
		switch o.kind {
		case 6:
			f, ok := w.any.(func() int)
			return ok && f() == 7
		case 7:
			b, ok := w.any.([]byte)
			return ok && string(b) == "bytes"
		}
		return w.any == o.v
	}
	return w.fn != nil && w.fn() == 7
}

// reach marks a case, so that a schedule of each is replayed.
func (w *want) reach(from int) {
	switch w.kind {
	case 0:
		vp.Reach("int")
	case 1:
		vp.Reach("num")
	case 2:
		vp.Reach("int8")
	case 3:
		vp.Reach("string")
	case 4:
		vp.Reach("pointer")
	case 5:
		vp.Reach("struct")
	case 6:
		vp.Reach("interface")
	case 7:
		vp.Reach("any")
	case 8:
		vp.Reach("func")
	}
	if w.kind == 3 && from == 7 {
		vp.Reach("text of bytes")
	}
	if w.kind == 2 && from == 1 {
		vp.Reach("narrowed")
	}
}

// get checks one Get of a resource with the outputs.
func get(g interface {
	Get(string, interface{}) error
}, outs []output, w *want) {
	// whether a nil output is looked at
	null := false
	for _, o := range outs {
		if w.accepts(o) {
			break
		}
		null = null || o.kind == 8
	}
	err, panics := try(func() error { return g.Get("a", w.ptr) })
	vp.Assert(!panics || !null, "C31: Get panics on a nil output")
	vp.Assert(!panics || null, "C31: Get panics")
	if panics {
		return
	}
	for _, o := range outs {
		if w.accepts(o) {
			vp.Assert(err == nil, "C31: Get refuses a convertible output")
			vp.Assert(w.holds(o), "C31: Get does not store the first convertible output")
			w.reach(o.kind)
			return
		}
	}
	vp.Assert(err != nil, "C31: Get succeeds without a convertible output")
	vp.Assert(w.untouched(), "C31: Get stores something although it fails")
}

func try(f func() error) (err error, panics bool) {
	defer func() {
		if recover() != nil {
			panics = true
		}
	}()
	return f(), false
}

func skipRunes(outs []output, w *want) {
	// the text of any integer is a table lookup the solver has no theory for:
	// one value of each type
	if w.kind != 3 {
		return
	}
	for _, o := range outs {
		if o.kind <= 2 {
			vp.Assume(o.n == 65)
		}
	}
}

// StubOutputs: any up to two outputs, any target, called twice.
func StubOutputs() {
	props("C31")
	var outs []output
	for i := vp.Pick("outputs", 3); i > 0; i-- {
		outs = append(outs, pickOutput(outputKinds))
	}
	w := pickWant()
	skipRunes(outs, w)
	var vs []interface{}
	for _, o := range outs {
		vs = append(vs, o.v)
	}
	g := deptesting.StubResources{
		"a": deptesting.NewStubResource(vs...),
		"b": {Error: errStub},
	}.Getter()
	vp.Assert(g.Get("b", w.ptr) == errStub, "C31: Get does not return the configured error")
	vp.Assert(w.untouched(), "C31: Get stores something although it fails")
	get(g, outs, w)
	vp.Assert(g.Get("a", nil) == nil, "C31: Get fails although no output is wanted")
	vp.Reach("end")
}

// StubRaw: resources given as values, errors or lists of outputs.
func StubRaw() {
	props("C31")
	var outs []output
	var raw interface{}
	var err error
	switch vp.Pick("raw", 3) {
	case 0:
		outs = append(outs, pickOutput(7))
		raw = outs[0].v
	case 1:
		outs = append(outs, pickOutput(7), pickOutput(3))
		raw = []interface{}{outs[0].v, outs[1].v}
	case 2:
		err = errStub
		raw = err
	}
	w := pickWant()
	skipRunes(outs, w)
	g := deptesting.StubGetter(map[string]interface{}{"a": raw, "b": 1})
	if vp.Bool("unwanted") {
		vp.Assert(g.Get("a", nil) == err, "C31: Get without a target does not return the configured error, or fails")
	} else if err != nil {
		vp.Assert(g.Get("a", w.ptr) == err, "C31: Get does not return the configured error")
		vp.Assert(w.untouched(), "C31: Get stores something although it fails")
	} else {
		get(g, outs, w)
	}
	vp.Reach("end")
}

// StubMisuse: unknown names, targets that are not pointers.
func StubMisuse() {
	props("C31")
	o := pickOutput(7)
	w := pickWant()
	g := deptesting.StubGetter(map[string]interface{}{"a": o.v})
	vp.Assert(g.Get("b", w.ptr) != nil, "C31: Get succeeds for an unknown name")
	vp.Assert(g.Get("b", nil) != nil, "C31: Get succeeds for an unknown name when no output is wanted")
	vp.Assert(w.untouched(), "C31: Get stores something although it fails")
	switch vp.Pick("not a pointer", 4) {
	case 0:
		vp.Assert(g.Get("a", o.n) != nil, "C31: Get accepts a target that is no pointer")
	case 1:
		vp.Assert(g.Get("a", *w) != nil, "C31: Get accepts a target that is no pointer")
	case 2:
		vp.Assert(g.Get("a", []byte("x")) != nil, "C31: Get accepts a target that is no pointer")
	case 3:
		vp.Assert(g.Get("a", theFn) != nil, "C31: Get accepts a target that is no pointer")
	}
	vp.Reach("end")
}
