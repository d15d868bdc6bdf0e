// Package hp builds logical Java heaps (worlds) and writes them as HPROF
// files. It knows nothing about the tool under test.
package hp

import "math"

// H is a handle of an object, array or class of a World. Encoders map handles
// to identifiers by a strictly increasing function. 0 is null.
type H int

// Java type codes of the HPROF format.
const (
	TObject = 2
	TBool   = 4
	TChar   = 5
	TFloat  = 6
	TDouble = 7
	TByte   = 8
	TShort  = 9
	TInt    = 10
	TLong   = 11
)

// AllTypes are the nine field types.
var AllTypes = []byte{TObject, TBool, TChar, TFloat, TDouble, TByte, TShort, TInt, TLong}

// PrimTypes are the eight element types of primitive arrays.
var PrimTypes = []byte{TBool, TChar, TFloat, TDouble, TByte, TShort, TInt, TLong}

// Width of a type in bytes.
func Width(t byte, idSize int) int {
	switch t {
	case TObject:
		return idSize
	case TBool, TByte:
		return 1
	case TChar, TShort:
		return 2
	case TFloat, TInt:
		return 4
	case TDouble, TLong:
		return 8
	}
	panic("bad type")
}

// Val is a typed value: raw bits for primitives, a handle for objects.
type Val struct {
	T    byte
	Bits uint64
	Ref  H
}

func Obj(h H) Val          { return Val{T: TObject, Ref: h} }
func Int(i int32) Val      { return Val{T: TInt, Bits: uint64(uint32(i))} }
func Long(i int64) Val     { return Val{T: TLong, Bits: uint64(i)} }
func Byte(i int8) Val      { return Val{T: TByte, Bits: uint64(uint8(i))} }
func Short(i int16) Val    { return Val{T: TShort, Bits: uint64(uint16(i))} }
func Char(c uint16) Val    { return Val{T: TChar, Bits: uint64(c)} }
func Double(f float64) Val { return Val{T: TDouble, Bits: math.Float64bits(f)} }
func Float(f float32) Val  { return Val{T: TFloat, Bits: uint64(math.Float32bits(f))} }
func Bool(b bool) Val {
	v := Val{T: TBool}
	if b {
		v.Bits = 1
	}
	return v
}

type Static struct {
	Name string
	V    Val
}
type Field struct {
	Name string
	T    byte
}
type Const struct {
	Idx uint16
	V   Val
}

// Class is a loaded class (or array class).
type Class struct {
	H        H
	Name     string
	Super    *Class
	Statics  []Static
	Fields   []Field
	Consts   []Const
	InstSize int32
	Loader   H
	Signers  H
	PD       H
	Dup      bool // LOAD_CLASS is written twice
}

// Inst is an instance; Vals hold the fields of its class first, then those of
// the superclasses.
type Inst struct {
	H    H
	Cls  *Class
	Vals []Val
}
type ObjArr struct {
	H     H
	Cls   *Class
	Elems []H
}
type PrimArr struct {
	H    H
	T    byte
	N    int
	Data []byte // big-endian elements, N*width bytes
}

type Frame struct {
	Method, Sig string
	File        string
	NoFile      bool
	Cls         *Class
	Line        int32
}
type Trace struct {
	Thread uint32 // logical thread serial, 0: none
	Frames []*Frame
}

// Root kinds of the HPROF format.
const (
	RUnknown     = 0xff
	RJniGlobal   = 0x01
	RJniLocal    = 0x02
	RJavaFrame   = 0x03
	RNativeStack = 0x04
	RSticky      = 0x05
	RThreadBlock = 0x06
	RMonitor     = 0x07
	RThread      = 0x08
)

type Root struct {
	Kind   byte
	Obj    H
	Thread uint32
	Frame  int32  // frame number, or index of the trace for RThread
	Jni    uint64 // JNI global reference
}

// Loaded is a class with no dump.
type Loaded struct {
	H    H
	Name string
}

// World is a logical heap.
type World struct {
	TS       int64 // ms since the epoch
	Classes  []*Class
	Insts    []*Inst
	ObjArrs  []*ObjArr
	Prims    []*PrimArr
	Frames   []*Frame
	Traces   []*Trace
	Roots    []*Root
	Extra    []string // strings nobody refers to
	LoadOnly []Loaded // classes that are loaded but not dumped: not linked yet
	Last     H

	byName map[string]*Class
}

func New() *World { return &World{byName: map[string]*Class{}} }

func (w *World) NewH() H { w.Last++; return w.Last }

// Class returns the first class of that name, or nil.
func (w *World) Class(name string) *Class { return w.byName[name] }

func (w *World) AddClass(name string, super *Class, instSize int32, fields ...Field) *Class {
	c := &Class{H: w.NewH(), Name: name, Super: super, InstSize: instSize, Fields: fields}
	w.Classes = append(w.Classes, c)
	if _, ok := w.byName[name]; !ok {
		w.byName[name] = c
	}
	return c
}

// AllFields of an instance of c in the order of their values.
func (c *Class) AllFields() []Field {
	var fs []Field
	for ; c != nil; c = c.Super {
		fs = append(fs, c.Fields...)
	}
	return fs
}

// NewInst makes an instance with zero values.
func (w *World) NewInst(c *Class) *Inst {
	i := &Inst{H: w.NewH(), Cls: c}
	for _, f := range c.AllFields() {
		i.Vals = append(i.Vals, Val{T: f.T})
	}
	w.Insts = append(w.Insts, i)
	return i
}

// Set sets the field declared by class named owner (or the most derived one if
// owner is empty).
func (i *Inst) Set(owner, name string, v Val) *Inst {
	n := 0
	for c := i.Cls; c != nil; c = c.Super {
		for _, f := range c.Fields {
			if f.Name == name && (owner == "" || c.Name == owner) {
				if f.T != v.T {
					panic("type mismatch of " + name)
				}
				i.Vals[n] = v
				return i
			}
			n++
		}
	}
	panic("no field " + owner + "." + name)
}

func (w *World) NewObjArr(c *Class, elems []H) *ObjArr {
	a := &ObjArr{H: w.NewH(), Cls: c, Elems: elems}
	w.ObjArrs = append(w.ObjArrs, a)
	return a
}

func (w *World) NewPrimArr(t byte, data []byte) *PrimArr {
	a := &PrimArr{H: w.NewH(), T: t, N: len(data) / Width(t, 8), Data: data}
	w.Prims = append(w.Prims, a)
	return a
}
