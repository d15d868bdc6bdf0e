package hp

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"os"
	"sort"
)

// Piece of a dump: bytes, or a run of zero bytes.
type Piece struct {
	B    []byte
	Zero int64
}

func (p Piece) Len() int64 { return int64(len(p.B)) + p.Zero }

// Pieces are a dump that may be far larger than memory.
type Pieces []Piece

func (ps Pieces) Len() (n int64) {
	for _, p := range ps {
		n += p.Len()
	}
	return
}

// WriteFile writes them as a sparse file.
func (ps Pieces) WriteFile(name string) error {
	f, err := os.Create(name)
	if err != nil {
		return err
	}
	var off int64
	for _, p := range ps {
		if len(p.B) > 0 {
			if _, err := f.WriteAt(p.B, off); err != nil {
				f.Close()
				return err
			}
		}
		off += p.Len()
	}
	if err := f.Truncate(off); err != nil {
		f.Close()
		return err
	}
	return f.Close()
}

// Reader reads pieces; it counts what was consumed.
type Reader struct {
	ps    Pieces
	start []int64
	size  int64
	pos   int64
	Max   int64 // the furthest position read
}

func NewReader(ps Pieces) *Reader {
	r := &Reader{ps: ps}
	for _, p := range ps {
		r.start = append(r.start, r.size)
		r.size += p.Len()
	}
	return r
}

func (r *Reader) ReadAt(b []byte, off int64) (n int, err error) {
	for n < len(b) {
		if off >= r.size {
			return n, io.EOF
		}
		i := sort.Search(len(r.start), func(i int) bool { return r.start[i] > off }) - 1
		for r.ps[i].Len() == 0 {
			i++
		}
		p, rel := r.ps[i], off-r.start[i]
		var k int
		if rel < int64(len(p.B)) {
			k = copy(b[n:], p.B[rel:])
		} else {
			k = int(min(int64(len(b)-n), p.Len()-rel))
			clear(b[n : n+k])
		}
		n += k
		off += int64(k)
	}
	r.Max = max(r.Max, off)
	return n, nil
}

func (r *Reader) Read(b []byte) (int, error) {
	if r.pos >= r.size {
		return 0, io.EOF
	}
	if rest := r.size - r.pos; int64(len(b)) > rest {
		b = b[:rest]
	}
	n, err := r.ReadAt(b, r.pos)
	r.pos += int64(n)
	return n, err
}

func (r *Reader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += r.pos
	case io.SeekEnd:
		off += r.size
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	r.pos = off
	return off, nil
}

// Bulk writes many similar objects.
type Bulk struct {
	IDSize int
	b      bytes.Buffer
}

func (k *Bulk) id(v uint64) []byte {
	if k.IDSize == 4 {
		return binary.BigEndian.AppendUint32(nil, uint32(v))
	}
	return binary.BigEndian.AppendUint64(nil, v)
}

// Inst appends an instance without fields.
func (k *Bulk) Inst(id, class uint64) {
	k.b.WriteByte(0x21)
	k.b.Write(k.id(id))
	k.b.Write([]byte{0, 0, 0, 1})
	k.b.Write(k.id(class))
	k.b.Write([]byte{0, 0, 0, 0})
}

// ObjArr appends an array of n nulls.
func (k *Bulk) ObjArr(id, class uint64, n int) {
	k.b.WriteByte(0x22)
	k.b.Write(k.id(id))
	k.b.Write([]byte{0, 0, 0, 1})
	k.b.Write(binary.BigEndian.AppendUint32(nil, uint32(n)))
	k.b.Write(k.id(class))
	k.b.Write(make([]byte, n*k.IDSize))
}

// Prim appends an array of n bytes.
func (k *Bulk) Prim(id uint64, data []byte) {
	k.b.WriteByte(0x23)
	k.b.Write(k.id(id))
	k.b.Write([]byte{0, 0, 0, 1})
	k.b.Write(binary.BigEndian.AppendUint32(nil, uint32(len(data))))
	k.b.WriteByte(TByte)
	k.b.Write(data)
}

// Len of the bytes not yet in a segment.
func (k *Bulk) Len() int { return k.b.Len() }

// Segment returns what was appended as a segment.
func (k *Bulk) Segment() Piece {
	h := append([]byte{0x1c, 0, 0, 0, 0}, binary.BigEndian.AppendUint32(nil, uint32(k.b.Len()))...)
	p := Piece{B: append(h, k.b.Bytes()...)}
	k.b.Reset()
	return p
}

// ZeroArray is a segment with one array of n zero bytes.
func (k *Bulk) ZeroArray(id uint64, n uint32) Piece {
	return k.Giant(Giant{Kind: 'p', T: TByte, N: n}, id, 0)
}

// Giant is an object of N zero elements (bytes of an instance). Only the header takes memory.
type Giant struct {
	Kind    byte // i, o, p
	T       byte // of elements of a primitive array
	N       uint32
	Unsized bool // its segment has length 0: a segment or the end must follow
}

// Giant is a segment with the object only.
func (k *Bulk) Giant(g Giant, id, class uint64) Piece {
	var b []byte
	size := int64(g.N)
	n := binary.BigEndian.AppendUint32(nil, g.N)
	stack := []byte{0, 0, 0, 1}
	switch g.Kind {
	case 'i':
		b = append(append(append(append([]byte{0x21}, k.id(id)...), stack...), k.id(class)...), n...)
	case 'o':
		b = append(append(append(append([]byte{0x22}, k.id(id)...), stack...), n...), k.id(class)...)
		size *= int64(k.IDSize)
	case 'p':
		b = append(append(append(append([]byte{0x23}, k.id(id)...), stack...), n...), g.T)
		size *= int64(Width(g.T, k.IDSize))
	}
	length := size + int64(len(b))
	if g.Unsized {
		length = 0
	} else if length > 1<<32-1 {
		panic("the object is too big for a segment")
	}
	h := append([]byte{0x1c, 0, 0, 0, 0}, binary.BigEndian.AppendUint32(nil, uint32(length))...)
	return Piece{B: append(h, b...), Zero: size}
}

// SpliceAt puts pieces into data at an offset.
func SpliceAt(data []byte, off int, ps ...Piece) Pieces {
	out := Pieces{{B: data[:off]}}
	out = append(out, ps...)
	return append(out, Piece{B: data[off:]})
}
