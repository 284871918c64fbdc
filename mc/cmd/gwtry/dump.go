package main

import (
	"os"
	"path/filepath"

	"mc/gsch"
)

func init() {
	if d := os.Getenv("DUMP"); d != "" {
		for _, s := range gsch.Sets {
			os.MkdirAll(filepath.Join(d, s.Name), 0o755)
			for _, f := range s.Files {
				os.WriteFile(filepath.Join(d, s.Name, f.Name), []byte(f.Src), 0o644)
			}
		}
		os.Exit(0)
	}
}
