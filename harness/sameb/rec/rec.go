// Package rec declares types whose printed names also occur in verif/samea/rec.
package rec

type Rec struct {
	A [2]uint16 `struct:"little"`
	B string    `struct:"[3]byte"`
	X Sub
}

type Sub struct {
	V []uint8 `struct:"size=2"`
	W uint8   `struct:"uint8:3"`
}

type Num int64

type Node struct {
	V    string `struct:"[2]byte"`
	Next []Node `struct:"-"`
}
