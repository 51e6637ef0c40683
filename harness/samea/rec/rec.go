// Package rec declares types whose printed names also occur in verif/sameb/rec.
package rec

type Rec struct {
	A uint8
	B []uint16 `struct:"sizefrom=A,big"`
	X Sub
}

type Sub struct {
	V int16 `struct:"int8"`
}

type Num uint8

type Node struct {
	V    uint8
	Next *Node `struct:"-"`
}
