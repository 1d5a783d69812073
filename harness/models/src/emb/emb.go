package emb

import cbg "simh/models/cbg"

type Emb struct {
	*PBase
	Base
	Own string
	Y   cbg.CY
	L   []Leaf
	*Tail
	Last int
}

type Tail struct {
	TA int
	TT *cbg.CT
	TM map[string]cbg.CM
}

type Base struct {
	BA int
	BT cbg.CT
	BL []cbg.CM
}

type PBase struct {
	PB string
	PM cbg.CM
	PY *cbg.CY
	PL Leaf
}

type Leaf struct {
	V string
	T cbg.CT
}
