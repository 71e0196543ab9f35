package stub

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// A small stub set laid over the embedded phpstorm-stubs, which need the resource loader
// (go.rice) to find the executable's appended archive. VH_STUBS names a directory; unset: no files.
type phpStormStubber struct{ dir string }

var _ Stubber = (*phpStormStubber)(nil)

func newPHPStormStub() (Stubber, error) {
	return &phpStormStubber{dir: os.Getenv("VH_STUBS")}, nil
}

func (s *phpStormStubber) Name() string { return "phpstorm-stubs" }

func (s *phpStormStubber) Walk(fn WalkFunc) {
	if s.dir == "" {
		return
	}
	names, _ := filepath.Glob(filepath.Join(s.dir, "*.php"))
	sort.Strings(names)
	for _, n := range names {
		b, err := os.ReadFile(n)
		if err != nil {
			continue
		}
		if fn(filepath.Base(n), b) != nil {
			return
		}
	}
}

func (s *phpStormStubber) GetURI(path string) string {
	return s.Name() + "://" + strings.ReplaceAll(path, "\\", "/")
}
