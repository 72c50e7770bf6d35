package hx

import (
	"encoding/binary"
	"errors"
)

// Item is a CBOR data item, read and written without the library's codec
type Item struct {
	Major byte   // 0..7
	Arg   uint64 // value, tag number or simple value
	Bytes []byte // majors 2 and 3
	Kids  []*Item
	Indef bool
	Wide  int     // 0: shortest head; else the number of argument bytes (1, 2, 4, 8) to write it with
	Claim *uint64 // a length to claim instead of the true one
}

func readHead(b []byte) (major byte, arg uint64, info byte, rest []byte, err error) {
	if len(b) == 0 {
		return 0, 0, 0, nil, errors.New("end")
	}
	major, info = b[0]>>5, b[0]&31
	rest = b[1:]
	n := 0
	switch {
	case info < 24:
		return major, uint64(info), info, rest, nil
	case info < 28:
		n = 1 << (info - 24)
	case info == 31:
		return major, 0, info, rest, nil
	default:
		return 0, 0, 0, nil, errors.New("reserved")
	}
	if len(rest) < n {
		return 0, 0, 0, nil, errors.New("end")
	}
	var buf [8]byte
	copy(buf[8-n:], rest[:n])
	return major, binary.BigEndian.Uint64(buf[:]), info, rest[n:], nil
}

func parse(b []byte, depth int) (*Item, []byte, error) {
	if depth > 40 {
		return nil, nil, errors.New("deep")
	}
	major, arg, info, rest, err := readHead(b)
	if err != nil {
		return nil, nil, err
	}
	it := &Item{Major: major, Arg: arg, Indef: info == 31}
	count := uint64(0)
	switch major {
	case 0, 1, 7:
		if it.Indef {
			return nil, nil, errors.New("indefinite")
		}
		if major == 7 && info >= 24 {
			it.Wide = 1 << (info - 24)
		}
		return it, rest, nil
	case 2, 3:
		if !it.Indef {
			if arg > uint64(len(rest)) {
				return nil, nil, errors.New("end")
			}
			it.Bytes = append([]byte{}, rest[:arg]...)
			return it, rest[arg:], nil
		}
		count = 1 << 62
	case 4:
		count = arg
	case 5:
		count = 2 * arg
	case 6:
		count = 1
	}
	if it.Indef {
		count = 1 << 62
	}
	for i := uint64(0); i < count; i++ {
		if it.Indef && len(rest) > 0 && rest[0] == 0xff {
			return it, rest[1:], nil
		}
		var k *Item
		if k, rest, err = parse(rest, depth+1); err != nil {
			return nil, nil, err
		}
		it.Kids = append(it.Kids, k)
	}
	return it, rest, nil
}

// ParseCBOR reads one item that takes all of the bytes
func ParseCBOR(b []byte) (*Item, error) {
	it, rest, err := parse(b, 0)
	if err == nil && len(rest) > 0 {
		err = errors.New("trailing bytes")
	}
	return it, err
}

// Enc writes the item
func (it *Item) Enc() []byte {
	var out []byte
	arg := it.Arg
	switch it.Major {
	case 2, 3:
		arg = uint64(len(it.Bytes))
	case 4:
		arg = uint64(len(it.Kids))
	case 5:
		arg = uint64(len(it.Kids) / 2)
	}
	if it.Claim != nil {
		arg = *it.Claim
	}
	if it.Indef {
		out = append(out, it.Major<<5|31)
		if it.Major == 2 || it.Major == 3 {
			if len(it.Kids) == 0 && len(it.Bytes) > 0 {
				h := len(it.Bytes) / 2
				out = append(out, (&Item{Major: it.Major, Bytes: it.Bytes[:h]}).Enc()...)
				out = append(out, (&Item{Major: it.Major, Bytes: it.Bytes[h:]}).Enc()...)
			}
		}
	} else {
		w := it.Wide
		if w == 0 {
			switch {
			case arg < 24:
			case arg < 1<<8:
				w = 1
			case arg < 1<<16:
				w = 2
			case arg < 1<<32:
				w = 4
			default:
				w = 8
			}
		}
		if w == 0 {
			out = append(out, it.Major<<5|byte(arg))
		} else {
			var buf [8]byte
			binary.BigEndian.PutUint64(buf[:], arg)
			out = append(out, it.Major<<5|map[int]byte{1: 24, 2: 25, 4: 26, 8: 27}[w])
			out = append(out, buf[8-w:]...)
		}
		out = append(out, it.Bytes...)
	}
	for _, k := range it.Kids {
		out = append(out, k.Enc()...)
	}
	if it.Indef {
		out = append(out, 0xff)
	}
	return out
}

// All are the item and everything in it
func (it *Item) All() []*Item {
	r := []*Item{it}
	for _, k := range it.Kids {
		r = append(r, k.All()...)
	}
	return r
}

// Null is the null item
func Null() *Item { return &Item{Major: 7, Arg: 22} }

// DrawItem is any item
func DrawItem(c *C, depth int, label string) *Item {
	it := &Item{Major: byte(Int(c, 0, 7, label+".major"))}
	if depth <= 0 && it.Major >= 4 && it.Major <= 6 {
		it.Major = 0
	}
	switch it.Major {
	case 0, 1:
		it.Arg = U64(c, label+".arg") >> uint(Int(c, 0, 63, label+".shift"))
	case 2, 3:
		it.Bytes = Bytes(c, 70, label+".bytes")
	case 4, 5, 6:
		n := Int(c, 0, 4, label+".n")
		if it.Major == 5 {
			n *= 2
		}
		if it.Major == 6 {
			it.Arg, n = uint64(Int(c, 0, 100, label+".tag")), 1
		}
		for i := 0; i < n; i++ {
			it.Kids = append(it.Kids, DrawItem(c, depth-1, label))
		}
	case 7:
		switch Int(c, 0, 3, label+".simple") {
		case 0:
			it.Arg = 20 + uint64(Int(c, 0, 3, label+".v"))
		case 1:
			it.Arg, it.Wide = uint64(Int(c, 32, 255, label+".v")), 1
		case 2:
			it.Arg, it.Wide = U64(c, label+".f"), 8
		case 3:
			it.Arg, it.Wide = U64(c, label+".f")&0xffff, 2
		}
	}
	if it.Major >= 2 && it.Major <= 5 {
		switch Int(c, 0, 9, label+".form") {
		case 9:
			it.Indef = true
		case 8:
			it.Wide = Pick(c, []int{1, 2, 4, 8}, label+".wide")
		}
	}
	return it
}
