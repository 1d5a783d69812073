package seq

import cbg "simh/models/cbg"

type Seq []Item

type Item struct {
	S  string
	N  *int
	T  cbg.CT
	M  cbg.CM
	Y  cbg.CY
	In [][]cbg.CM
}
