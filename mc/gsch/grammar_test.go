package gsch

import "testing"

func TestSeeds(t *testing.T) {
	for _, s := range append(append([]Set{}, Sets...), C17Sets()...) {
		for _, f := range s.Files {
			toks := Lex(f.Src)
			if !Valid(toks) {
				t.Errorf("%s/%s not accepted", s.Name, f.Name)
			}
			n := 0
			for i, k := range toks {
				if k.Kind == "ID" {
					n++
					if r := RoleOf(toks, i); len(r) != 1 {
						t.Log(s.Name, f.Name, k.Text, r)
					}
				}
			}
			t.Log(s.Name, f.Name, len(toks), n)
		}
	}
}
