package gsch

import (
	"os"
	"path/filepath"
	"sort"
	"strings"

	"mc/genw"
)

// Repo returns the schemas that the repository itself has, those of a directory
// of packages together.
func Repo(dir string) []Set {
	var out []Set
	groups := map[string][]genw.File{}
	for _, root := range []string{"testdata", "test/reference", "example"} {
		filepath.Walk(filepath.Join(dir, root), func(path string, info os.FileInfo, err error) error {
			if err != nil || info.IsDir() || !strings.HasSuffix(path, ".zs") {
				return nil
			}
			src, err := os.ReadFile(path)
			if err != nil {
				return nil
			}
			rel, _ := filepath.Rel(dir, path)
			group, name := rel, filepath.Base(rel)
			if rest, ok := strings.CutPrefix(rel, "testdata/reference_modules/"); ok {
				group, name = "testdata/reference_modules", strings.ReplaceAll(rest, "/", "_")
			}
			groups[group] = append(groups[group], genw.File{Name: name, Src: string(src)})
			return nil
		})
	}
	for group, files := range groups {
		sort.Slice(files, func(i, j int) bool { return files[i].Name < files[j].Name })
		out = append(out, Set{group, files})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}
