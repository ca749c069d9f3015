package PKG

// Drives the file-system layers against a recording base and a model.

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/microsoft/typescript-go/shim/vfs"
)

type vfsCall struct {
	name string
	args []any
}

// vfsBase answers from a hash of the call, so that no two answers agree by accident, and records every call.
type vfsBase struct {
	salt  uint32
	calls []vfsCall
}

func (b *vfsBase) h(name string, args ...any) uint32 {
	h := b.salt*16777619 + 2166136261
	for _, c := range []byte(name + fmt.Sprint(args...)) {
		h = (h ^ uint32(c)) * 16777619
	}
	h ^= h >> 15
	h *= 2246822519
	h ^= h >> 13
	return h
}
func (b *vfsBase) rec(name string, args ...any) uint32 {
	b.calls = append(b.calls, vfsCall{name, args})
	return b.h(name, args...)
}

type vfsErr struct{ n uint32 }

func (e *vfsErr) Error() string { return fmt.Sprint("e", e.n) }

var vfsErrs [16]error

func (b *vfsBase) err(n uint32) error {
	if n%4 == 0 {
		return nil
	}
	return vfsErrs[n%16]
}

type vfsInfo struct{ n uint32 }

func (i *vfsInfo) Name() string               { return fmt.Sprint("i", i.n) }
func (i *vfsInfo) Size() int64                { return int64(i.n) }
func (i *vfsInfo) Mode() fs.FileMode          { return fs.FileMode(i.n) }
func (i *vfsInfo) ModTime() time.Time         { return time.Unix(int64(i.n), 0) }
func (i *vfsInfo) IsDir() bool                { return i.n%2 == 0 }
func (i *vfsInfo) Sys() any                   { return i.n }
func (i *vfsInfo) Type() fs.FileMode          { return fs.FileMode(i.n) }
func (i *vfsInfo) Info() (fs.FileInfo, error) { return i, nil }

func (b *vfsBase) UseCaseSensitiveFileNames() bool { return b.rec("Case")%2 == 0 }
func (b *vfsBase) FileExists(p string) bool        { return b.rec("FileExists", p)%2 == 0 }
func (b *vfsBase) ReadFile(p string) (string, bool) {
	n := b.rec("ReadFile", p)
	if n%3 == 0 {
		return "", false
	}
	return fmt.Sprint("disk", n), true
}
func (b *vfsBase) WriteFile(p, d string) error  { return b.err(b.rec("WriteFile", p, d)) }
func (b *vfsBase) AppendFile(p, d string) error { return b.err(b.rec("AppendFile", p, d)) }
func (b *vfsBase) Remove(p string) error        { return b.err(b.rec("Remove", p)) }
func (b *vfsBase) Chtimes(p string, a, m time.Time) error {
	return b.err(b.rec("Chtimes", p, a.UnixNano(), m.UnixNano()))
}
func (b *vfsBase) DirectoryExists(p string) bool { return b.rec("DirectoryExists", p)%2 == 0 }
func (b *vfsBase) entries(n uint32) vfs.Entries {
	var e vfs.Entries
	for i, f := range []string{"b.ts", "c.ts", "tsconfig.json", "é.ts"} {
		if n>>i&1 == 1 {
			e.Files = append(e.Files, f)
		}
	}
	for i, f := range []string{"a", "b", "node_modules", "x"} {
		if n>>(i+4)&1 == 1 {
			e.Directories = append(e.Directories, f)
		}
	}
	if n>>8&1 == 1 {
		e.Symlinks = map[string]struct{}{"a": {}, fmt.Sprint("s", n%7): {}}
	}
	return e
}
func (b *vfsBase) GetAccessibleEntries(p string) vfs.Entries { return b.entries(b.rec("Entries", p)) }
func (b *vfsBase) Stat(p string) vfs.FileInfo {
	n := b.rec("Stat", p)
	if n%3 == 0 {
		return nil
	}
	return &vfsInfo{n}
}
func (b *vfsBase) WalkDir(root string, fn vfs.WalkDirFunc) error {
	n := b.rec("WalkDir", root)
	for i := uint32(0); i < n%4; i++ {
		var err error
		if (n>>i)&8 != 0 {
			err = vfsErrs[i]
		}
		if e := fn(fmt.Sprint(root, "/w", i), &vfsInfo{n + i}, err); e != nil {
			return e
		}
	}
	return b.err(n / 7)
}
func (b *vfsBase) Realpath(p string) string { return fmt.Sprint("/real", b.rec("Realpath", p)) }

var vfsPaths = []string{
	"/", "", "/a", "/a/", "/a/b", "/a/b/", "/a/b.ts", "/a/B.ts", "/A/b.ts", "/a/bc.ts", "/a/b/c.ts", "/a/b/c/d.ts", "/a/bc", "/a/bc/d.ts", "/ab/c.ts", "/a/b.ts/", "a/b.ts", "./a/b.ts",
	"/a/./b.ts", "/a/../a/b.ts", "/a//b.ts", "/a/é.ts", "/a/e\u0301.ts", "/日本/語.ts", "/日本", "C:/a/b.ts", "c:/a/b.ts", "C:\\a\\b.ts", "/a/b.tsx", "/a/b.d.ts", "/a/b", "/a/tsconfig.json", "/tsconfig.json",
	"/x.ts", "/node_modules/p/index.d.ts", "/node_modules", "/a/ b.ts", "/a/b.ts ", "/a/b.t", "/a/b.ts?x", "bundled:///libs/lib.d.ts", "^/untitled/x.ts",
}

func vfsNorm(p string) string { // directory form of a path, for paths made of plain components
	if p == "" {
		return ""
	}
	if !strings.HasSuffix(p, "/") {
		p += "/"
	}
	return p
}

func vfsPlain(p string) bool {
	return strings.HasPrefix(p, "/") && !strings.Contains(p, "//") && !strings.Contains(p, "/./") && !strings.Contains(p, "/../") && !strings.Contains(p, "\\")
}

func sorted(xs []string) []string { // as a set
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	r := []string{}
	for x := range m {
		r = append(r, x)
	}
	sort.Strings(r)
	return r
}

func TestVerifFS(t *testing.T) {
	for i := range vfsErrs {
		vfsErrs[i] = &vfsErr{uint32(i)}
	}
	out, _ := os.Create(os.Getenv("VERIF_OUT"))
	defer out.Close()
	enc := json.NewEncoder(out)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_RUN_SEED"), 10, 64)
	n, _ := strconv.Atoi(os.Getenv("VERIF_N"))
	rng := rand.New(rand.NewSource(seed))
	counts := map[string]int{}
	bad := 0
	for round := 0; round < n; round++ {
		ov := map[string]string{}
		for k := rng.Intn(6); k > 0; k-- {
			p := vfsPaths[rng.Intn(len(vfsPaths))]
			if rng.Intn(4) > 0 { // mostly paths that look like files
				for !strings.Contains(p, ".ts") && !strings.Contains(p, "json") {
					p = vfsPaths[rng.Intn(len(vfsPaths))]
				}
			}
			ov[p] = []string{"", "x", "const a = 1;\n", "\ufeffé", strings.Repeat("y", 300)}[rng.Intn(5)]
		}
		base := &vfsBase{salt: rng.Uint32()}
		ref := &vfsBase{salt: base.salt}
		given := map[string]string{}
		for k, v := range ov {
			given[k] = v
		}
		l := verifLayer(base, given)
		trace := []string{}
		for step := 0; step < 40; step++ {
			p := vfsPaths[rng.Intn(len(vfsPaths))]
			if len(ov) > 0 && rng.Intn(3) == 0 {
				for q := range ov { // map order only picks which override, recorded in the trace
					p = q
					if rng.Intn(2) == 0 {
						break
					}
				}
			}
			content, in := ov[p]
			base.calls, ref.calls = nil, nil
			what, fault := "", ""
			fail := func(f string, a ...any) {
				if fault == "" {
					fault = fmt.Sprintf(f, a...)
				}
			}
			forwarded := func(maybe bool) { // exactly the reference call reached the base (maybe: or none)
				if maybe && len(base.calls) == 0 {
					return
				}
				if !reflect.DeepEqual(base.calls, ref.calls) {
					fail("calls below %v, want %v", base.calls, ref.calls)
				}
			}
			untouched := func() {
				for _, c := range base.calls {
					switch c.name {
					case "WriteFile", "AppendFile", "Remove", "Chtimes":
						fail("%v reached the layer below", c)
					}
				}
			}
			op := rng.Intn(12)
			switch op {
			case 0:
				what = "FileExists"
				got := l.FileExists(p)
				if in {
					if !got {
						fail("in-memory file does not exist")
					}
					untouched()
				} else {
					if want := ref.FileExists(p); got != want {
						fail("%v, below %v", got, want)
					}
					forwarded(false)
				}
			case 1:
				what = "ReadFile"
				got, ok := l.ReadFile(p)
				if in {
					if got != content || !ok {
						fail("%q %v, in memory %q", got, ok, content)
					}
					untouched()
				} else {
					if want, wok := ref.ReadFile(p); got != want || ok != wok {
						fail("%q %v, below %q %v", got, ok, want, wok)
					}
					forwarded(false)
				}
			case 2, 3, 4, 5:
				d := fmt.Sprint("data", rng.Intn(1000))
				a, m := time.Unix(rng.Int63n(1e9), rng.Int63n(1e9)), time.Unix(rng.Int63n(1e9), 0)
				var f, g func(vfs.FS) error
				switch op {
				case 2:
					what = "WriteFile"
					f = func(x vfs.FS) error { return x.WriteFile(p, d) }
				case 3:
					what = "AppendFile"
					f = func(x vfs.FS) error { return x.AppendFile(p, d) }
				case 4:
					what = "Remove"
					f = func(x vfs.FS) error { return x.Remove(p) }
				case 5:
					what = "Chtimes"
					f = func(x vfs.FS) error { return x.Chtimes(p, a, m) }
				}
				g = f
				got, refused := vfsTry(f, l)
				if in && verifRefusesWrites {
					if !refused && got == nil && len(base.calls) == 0 {
						fail("silently dropped")
					}
					untouched()
				} else {
					want := g(ref)
					if refused || !errors.Is(got, want) || (got == nil) != (want == nil) {
						fail("%v (refused %v), below %v", got, refused, want)
					}
					forwarded(false)
				}
			case 6:
				what = "DirectoryExists"
				got := l.DirectoryExists(p)
				virtual := false
				if verifDirs {
					for q := range ov {
						virtual = virtual || vfsPlain(q) && vfsPlain(p) && strings.HasPrefix(q, vfsNorm(p)) && q != vfsNorm(p)
					}
				}
				if virtual {
					if !got {
						fail("directory of an in-memory file does not exist")
					}
					untouched()
				} else if verifDirs && (!vfsPlain(p) || vfsOdd(ov)) {
					what = "" // relative and unnormalised paths are nobody's business here
				} else {
					if want := ref.DirectoryExists(p); got != want {
						fail("%v, below %v", got, want)
					}
					forwarded(false)
				}
			case 7:
				what = "GetAccessibleEntries"
				got := l.GetAccessibleEntries(p)
				want := ref.GetAccessibleEntries(p)
				if verifDirs {
					if !vfsPlain(p) || vfsOdd(ov) {
						what = ""
						break
					}
					for q := range ov {
						if rest, ok := strings.CutPrefix(q, vfsNorm(p)); ok && rest != "" {
							if dir, _, ok := strings.Cut(rest, "/"); ok {
								want.Directories = append(want.Directories, dir)
							} else {
								want.Files = append(want.Files, rest)
							}
						}
					}
				}
				if !reflect.DeepEqual(sorted(got.Files), sorted(want.Files)) || !reflect.DeepEqual(sorted(got.Directories), sorted(want.Directories)) {
					fail("%v, want %v", got, want)
				}
				if !reflect.DeepEqual(got.Symlinks, want.Symlinks) {
					fail("symlinks %v, want %v", got.Symlinks, want.Symlinks)
				}
				forwarded(false)
			case 8:
				what = "Stat"
				got := l.Stat(p)
				if in && verifDirs {
					if got == nil || got.IsDir() || got.Size() != int64(len(content)) || !got.Mode().IsRegular() {
						fail("%v for an in-memory file of %d bytes", got, len(content))
					}
					untouched()
				} else {
					want := ref.Stat(p)
					if (got == nil) != (want == nil) || got != nil && (got.Name() != want.Name() || got.Size() != want.Size() || got.Mode() != want.Mode() || got.IsDir() != want.IsDir() || !got.ModTime().Equal(want.ModTime())) {
						fail("%v, below %v", got, want)
					}
					forwarded(false)
				}
			case 9:
				what = "WalkDir"
				stop := rng.Intn(5)
				walk := func(x vfs.FS) (seen []string, err error) {
					err = x.WalkDir(p, func(path string, d vfs.DirEntry, err error) error {
						seen = append(seen, fmt.Sprint(path, d.Name(), err))
						if len(seen) == stop {
							return vfsErrs[3]
						}
						return nil
					})
					return
				}
				s1, e1 := walk(l)
				s2, e2 := walk(ref)
				if !reflect.DeepEqual(s1, s2) || e1 != e2 {
					fail("%v %v, below %v %v", s1, e1, s2, e2)
				}
				forwarded(false)
			case 10:
				what = "Realpath"
				got := l.Realpath(p)
				if in && verifDirs {
					if got != p {
						fail("%q for an in-memory file", got)
					}
				} else {
					if want := ref.Realpath(p); got != want {
						fail("%q, below %q", got, want)
					}
					forwarded(false)
				}
			case 11:
				what = "UseCaseSensitiveFileNames"
				if got, want := l.UseCaseSensitiveFileNames(), ref.UseCaseSensitiveFileNames(); got != want {
					fail("%v, below %v", got, want)
				}
			}
			if what == "" {
				continue
			}
			if len(ov) != len(given) {
				fail("the set of in-memory files changed")
			}
			for k, v := range ov {
				if given[k] != v {
					fail("in-memory file %q changed", k)
				}
			}
			trace = append(trace, fmt.Sprintf("%s(%q)", what, p))
			kind := "below"
			if in {
				kind = "memory"
			}
			counts[what+" "+kind]++
			if fault != "" && bad < 20 {
				bad++
				enc.Encode(map[string]any{"bad": fmt.Sprintf("%s(%q): %s", what, p, fault), "memory": ov, "trace": trace, "round": round})
			}
		}
	}
	enc.Encode(map[string]any{"counts": counts})
}

func vfsOdd(ov map[string]string) bool {
	for q := range ov {
		if !vfsPlain(q) || strings.HasSuffix(q, "/") {
			return true
		}
	}
	return false
}

func vfsTry(f func(vfs.FS) error, l vfs.FS) (err error, refused bool) {
	defer func() {
		if recover() != nil {
			refused = true
		}
	}()
	return f(l), false
}
