package dict

import cbg "simh/models/cbg"

type Dict map[cbg.CT][]Item

type Item struct {
	S string
	M map[string]cbg.CM
	Y *cbg.CY
	P **int
}
