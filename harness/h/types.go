// Package h holds the harnesses.
package h

import "github.com/RomiChan/protobuf/proto"

type Scalars struct {
	A int32   `protobuf:"varint,1,opt"`
	B int64   `protobuf:"varint,2,opt"`
	C uint32  `protobuf:"varint,15,opt"`
	D uint64  `protobuf:"varint,16,opt"`
	E int32   `protobuf:"zigzag32,17,opt"`
	F int64   `protobuf:"zigzag64,2047,opt"`
	G bool    `protobuf:"varint,2048,opt"`
	H uint32  `protobuf:"fixed32,20,opt"`
	I uint64  `protobuf:"fixed64,262143,opt"`
	J int32   `protobuf:"fixed32,262144,opt"`
	K int64   `protobuf:"fixed64,33554431,opt"`
	L float32 `protobuf:"fixed32,33554432,opt"`
	M float64 `protobuf:"fixed64,536870911,opt"`
	N string  `protobuf:"bytes,3,opt"`
	O []byte  `protobuf:"bytes,4,opt"`
}

type Opts struct {
	A proto.Option[int32]   `protobuf:"varint,1,opt"`
	B proto.Option[int64]   `protobuf:"varint,2,opt"`
	C proto.Option[uint32]  `protobuf:"varint,3,opt"`
	D proto.Option[uint64]  `protobuf:"varint,4,opt"`
	E proto.Option[int32]   `protobuf:"zigzag32,5,opt"`
	F proto.Option[int64]   `protobuf:"zigzag64,6,opt"`
	G proto.Option[bool]    `protobuf:"varint,7,opt"`
	H proto.Option[uint32]  `protobuf:"fixed32,8,opt"`
	I proto.Option[uint64]  `protobuf:"fixed64,9,opt"`
	J proto.Option[int32]   `protobuf:"fixed32,10,opt"`
	K proto.Option[int64]   `protobuf:"fixed64,11,opt"`
	L proto.Option[float32] `protobuf:"fixed32,12,req"`
	M proto.Option[float64] `protobuf:"fixed64,13,opt"`
	N proto.Option[string]  `protobuf:"bytes,2000,opt"`
}

type Ptrs struct {
	A *int32   `protobuf:"varint,1,opt"`
	B *int64   `protobuf:"varint,2,opt"`
	C *uint32  `protobuf:"varint,3,opt"`
	D *uint64  `protobuf:"varint,4,opt"`
	E *int32   `protobuf:"zigzag32,5,opt"`
	F *int64   `protobuf:"zigzag64,6,opt"`
	G *bool    `protobuf:"varint,7,opt"`
	H *uint32  `protobuf:"fixed32,8,opt"`
	I *uint64  `protobuf:"fixed64,9,opt"`
	J *int32   `protobuf:"fixed32,10,opt"`
	K *int64   `protobuf:"fixed64,11,opt"`
	L *float32 `protobuf:"fixed32,12,opt"`
	M *float64 `protobuf:"fixed64,13,opt"`
	N *string  `protobuf:"bytes,14,opt"`
}

type Reps struct {
	A []int32   `protobuf:"varint,1,rep"`
	B []int64   `protobuf:"varint,2,rep"`
	C []uint32  `protobuf:"varint,3,rep"`
	D []uint64  `protobuf:"varint,4,rep"`
	E []int32   `protobuf:"zigzag32,5,rep"`
	F []int64   `protobuf:"zigzag64,6,rep"`
	G []bool    `protobuf:"varint,7,rep"`
	H []uint32  `protobuf:"fixed32,8,rep"`
	I []uint64  `protobuf:"fixed64,9,rep"`
	J []int32   `protobuf:"fixed32,10,rep"`
	K []int64   `protobuf:"fixed64,11,rep"`
	L []float32 `protobuf:"fixed32,12,rep"`
	M []float64 `protobuf:"fixed64,13,rep"`
	N []string  `protobuf:"bytes,14,rep"`
	O [][]byte  `protobuf:"bytes,300,rep"`
	P []*Leaf   `protobuf:"bytes,15,rep"`
}

type Leaf struct {
	A int32  `protobuf:"varint,1,opt"`
	B string `protobuf:"bytes,2,opt"`
}

type Tree struct {
	L *Tree               `protobuf:"bytes,1,opt"`
	V proto.Option[int64] `protobuf:"zigzag64,2,opt"`
	K []*Tree             `protobuf:"bytes,3,rep"`
	R *Tree               `protobuf:"bytes,4,opt"`
}

type Ping struct {
	A uint32 `protobuf:"varint,1,opt"`
	P *Pong  `protobuf:"bytes,2,opt"`
}

type Pong struct {
	P *Ping  `protobuf:"bytes,1,opt"`
	B []byte `protobuf:"bytes,2,opt"`
	O *Pong  `protobuf:"bytes,3,opt"`
}

type Maps struct {
	A map[int32]int64    `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	B map[int64]int32    `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	C map[uint32]uint64  `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	D map[uint64]uint32  `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	E map[int32]int64    `protobuf:"bytes,5,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"zigzag64,2,opt"`
	F map[int64]int32    `protobuf:"bytes,6,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"zigzag32,2,opt"`
	G map[uint32]uint64  `protobuf:"bytes,7,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	H map[uint64]uint32  `protobuf:"bytes,8,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	I map[int32]int64    `protobuf:"bytes,9,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	J map[int64]int32    `protobuf:"bytes,10,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	K map[bool]float32   `protobuf:"bytes,11,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	L map[string]float64 `protobuf:"bytes,12,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed64,2,opt"`
	M map[string]string  `protobuf:"bytes,13,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	N map[uint32][]byte  `protobuf:"bytes,14,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	O map[int32]*Leaf    `protobuf:"bytes,400,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	P map[string]bool    `protobuf:"bytes,15,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}

// Sibs has fields of the same Go type in different encodings.
type Sibs struct {
	A []int32         `protobuf:"varint,1,rep"`
	B []int32         `protobuf:"zigzag32,2,rep"`
	C []int32         `protobuf:"fixed32,3,rep"`
	D *int64          `protobuf:"zigzag64,4,opt"`
	E *int64          `protobuf:"varint,5,opt"`
	F *int64          `protobuf:"fixed64,6,opt"`
	G map[int32]int32 `protobuf:"bytes,7,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	H map[int32]int32 `protobuf:"bytes,8,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed32,2,opt"`
	I map[int32]int32 `protobuf:"bytes,9,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	J uint32          `protobuf:"fixed32,10,opt"`
	K uint32          `protobuf:"varint,11,opt"`
	L []uint64        `protobuf:"fixed64,12,rep"`
	M []uint64        `protobuf:"varint,13,rep"`
	N *Leaf           `protobuf:"bytes,14,opt"`
	O *Leaf           `protobuf:"bytes,15,opt"`
}

type Color int32
type Name string
type Blob []byte

// Named has fields of named Go types.
type Named struct {
	A Color          `protobuf:"varint,1,opt"`
	B []Color        `protobuf:"varint,2,rep"`
	C Name           `protobuf:"bytes,3,opt"`
	D []Name         `protobuf:"bytes,4,rep"`
	E Blob           `protobuf:"bytes,5,opt"`
	F map[Name]Color `protobuf:"bytes,6,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	G *Color         `protobuf:"zigzag32,7,opt"`
}

// Mixed has fields of all shapes next to fields the library must ignore.
type Mixed struct {
	x0 uint8
	A  bool `protobuf:"varint,1,opt"`
	x1 uint64
	B  proto.Option[bool] `protobuf:"varint,2,opt"`
	C  uint32             `protobuf:"varint,3,opt"`
	U0 uint8
	D  []uint32          `protobuf:"varint,4,rep"`
	E  *Leaf             `protobuf:"bytes,5,opt"`
	U1 *Leaf             `json:"protobuf"`
	F  map[uint32]string `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	x2 string
	G  string  `protobuf:"bytes,7,opt"`
	H  *uint32 `protobuf:"fixed32,8,opt"`
	U2 []byte
	I  []byte  `protobuf:"bytes,9,opt"`
	x3 uint16  `protobuf:"varint,11,opt"`
	J  float64 `protobuf:"fixed64,10,opt"`
	_  [0]func()
}
