package main

import (
	"mc/bind"
	"mc/fam"
	"mc/rep"
)

func init() {
	for _, id := range []string{"C04", "C05", "C06", "C07", "C08", "C09", "C10", "C20"} {
		id := id
		checks[id] = func(rp *rep.R) {
			max, offs := 400, []int{0, 1, 3, 4, 7}
			if rp.Thorough() {
				max, offs = 20000, []int{0, 1, 2, 3, 4, 5, 6, 7}
			}
			// one check builds its objects with parameters left over from elsewhere
			bind.Stale = id == "C09"
			codecCheck(rp, fam.Get(id, rp.Thorough()), max, offs)
			if id == "C04" || id == "C05" {
				rtArrays(rp, id == "C05", false)
			}
		}
	}
}
