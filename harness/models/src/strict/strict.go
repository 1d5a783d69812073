package strict

import cbg "simh/models/cbg"

type Strict struct {
	A   int
	In  Inner
	Ins []Inner
	Map map[string]*Inner
	Any any
	Two [2]Inner
}

type Inner struct {
	B string
	Y cbg.CY
	M cbg.CM
	T *cbg.CT
}
