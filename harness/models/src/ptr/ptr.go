package ptr

import cbg "simh/models/cbg"

type Ptr struct {
	A    int
	In   Inner
	PIn  *Inner
	Ins  []Inner
	PIns []*Inner
	Map  map[string]Inner
	Arr  [2]Inner
	Y    cbg.CY
	M    cbg.CM
}

type Inner struct {
	S string
	T cbg.CT
	M *cbg.CM
}
