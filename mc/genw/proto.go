// Package genw runs go-zserio's command line in a worker process, over and
// over, with the order of map iteration and the outside world under control.
package genw

type File struct{ Name, Src string }

// Pre is something that is in the output directory before.
type Pre struct {
	Path, Kind string // file, dir, link
	Data       string
}

type Req struct {
	ID     int
	Files  []File
	Args   []string // names of the files on the command line, all if nil; "." for the directory
	Out    string   // output directory below the scratch directory, "-" for standard output
	Root   string
	Only   string
	Pkgs   []string // print each of these packages, and put it into the output directory
	NoFmt  bool
	SQL    bool
	MaxLen int
	MaxRel int // MaxLen counted from the end of the output directory's name
	Pre    []Pre
	Fsize  int
	Again  int    // further runs into the same output
	Chdir  bool   // Args and Out are as on the command line, in the directory of the schemas
	Faults string // "count" lists the operations on files, "fail", "short" and "crash" are what the operation At does
	At     int

	Plan     map[int][]int
	SitePlan map[int]string
	Record   bool
	Check    bool
	Want     bool
}

type Visit struct{ Site, N int }

type Resp struct {
	ID       int
	OK       bool
	Err      string
	Crash    string
	Tree     map[string]string // file: hash
	Files    map[string]string // file: content
	Visits   []Visit
	TypeErrs []string
	OutLen   int
	Stdout   string
	Runs     []string          // hash of the tree after each run
	Ops      []string          // the operations on files
	Healed   map[string]string // the files after another run, without the fault
	HealedOK bool
}
