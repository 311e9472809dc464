//verif:replace os.Stat vfFSStat
//verif:replace os.Lstat vfFSStat
//verif:replace os.Open vfFSOpen
//verif:replace os.ReadFile vfFSReadFile
//verif:replace os.MkdirAll vfFSMkdirAll
//verif:replace (*os.File).Stat vfFSFileStat
//verif:replace (*os.File).Read vfFSFileRead
//verif:replace (*os.File).Seek vfFSFileSeek
//verif:replace (*os.File).Close vfFSFileClose
//verif:replace (*os.File).Readdir vfFSFileReaddir
//verif:replace (*os.File).ReadDir vfFSFileReadDir
//verif:replace mime.TypeByExtension vfFSMime
//verif:assume os.Stat, Lstat, Open, ReadFile and the methods of os.File follow the file system model of harness/common/fs.go (no links); counterexamples are replayed on a real directory tree
package common

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

const vfFSRoot = "/vfroot"

type vfNode struct {
	dir  bool
	data string
}

type vfHandle struct {
	name string
	node vfNode
	off  int64
}

var (
	vfFSNodes   map[string]vfNode
	vfFSHandles map[*os.File]*vfHandle
	vfFSOpened  []string
)

// vfTree makes a directory tree; names that end with / are directories.
func vfTree(files map[string]string) string {
	root := vfFSRoot
	if vsym.Native() {
		d, err := os.MkdirTemp("", "vf")
		if err != nil {
			panic(err)
		}
		root = d
	}
	vfFSNodes = map[string]vfNode{"": {dir: true}}
	vfFSHandles = map[*os.File]*vfHandle{}
	for name, data := range files {
		parts := strings.Split(strings.TrimSuffix(name, "/"), "/")
		n := len(parts)
		for i := 1; i <= n; i++ {
			p := strings.Join(parts[:i], "/")
			if i < n || strings.HasSuffix(name, "/") {
				vfFSNodes[p] = vfNode{dir: true}
				if vsym.Native() {
					os.MkdirAll(filepath.Join(root, p), 0o755)
				}
				continue
			}
			vfFSNodes[p] = vfNode{data: data}
			if vsym.Native() {
				os.WriteFile(filepath.Join(root, p), []byte(data), 0o644)
			}
		}
	}
	return root
}

// vfFSFind resolves a path as the kernel would.
func vfFSFind(name string) (string, vfNode, bool) {
	rest, ok := strings.CutPrefix(name, vfFSRoot)
	if !ok || (rest != "" && rest[0] != '/') {
		return "", vfNode{}, false
	}
	cur, node := "", vfNode{dir: true}
	for rest != "" {
		part := rest
		if i := strings.IndexByte(rest, '/'); i >= 0 {
			part, rest = rest[:i], rest[i+1:]
			if !node.dir {
				return "", vfNode{}, false
			}
		} else {
			rest = ""
		}
		switch part {
		case "", ".":
			continue
		case "..":
			if i := strings.LastIndexByte(cur, '/'); i >= 0 {
				cur = cur[:i]
			} else {
				cur = ""
			}
			node = vfNode{dir: true}
			continue
		}
		found := false
		pre := cur
		if pre != "" {
			pre += "/"
		}
		for _, k := range vfFSNames() {
			b, ok := strings.CutPrefix(k, pre)
			if !ok || b == "" || strings.IndexByte(b, '/') >= 0 {
				continue
			}
			if b == part {
				cur, node, found = k, vfFSNodes[k], true
				break
			}
		}
		if !found {
			return "", vfNode{}, false
		}
	}
	return cur, node, true
}

func vfFSNames() []string {
	var out []string
	for k := range vfFSNodes {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type vfInfo struct {
	name string
	node vfNode
}

func (i vfInfo) Name() string       { return filepath.Base("/" + i.name) }
func (i vfInfo) Size() int64        { return int64(len(i.node.data)) }
func (i vfInfo) ModTime() time.Time { return time.Unix(1700000000, 0) }
func (i vfInfo) IsDir() bool        { return i.node.dir }
func (i vfInfo) Sys() any           { return nil }
func (i vfInfo) Mode() fs.FileMode {
	if i.node.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}

func vfFSStat(name string) (os.FileInfo, error) {
	n, node, ok := vfFSFind(name)
	if !ok {
		return nil, &fs.PathError{Op: "stat", Path: "?", Err: fs.ErrNotExist}
	}
	return vfInfo{n, node}, nil
}

func vfFSOpen(name string) (*os.File, error) {
	n, node, ok := vfFSFind(name)
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: "?", Err: fs.ErrNotExist}
	}
	f := new(os.File)
	vfFSHandles[f] = &vfHandle{name: n, node: node}
	vfFSOpened = append(vfFSOpened, n)
	return f, nil
}

func vfFSReadFile(name string) ([]byte, error) {
	n, node, ok := vfFSFind(name)
	if !ok || node.dir {
		return nil, &fs.PathError{Op: "open", Path: "?", Err: fs.ErrNotExist}
	}
	vfFSOpened = append(vfFSOpened, n)
	return []byte(node.data), nil
}

func vfFSFileStat(f *os.File) (os.FileInfo, error) {
	h := vfFSHandles[f]
	return vfInfo{h.name, h.node}, nil
}

func vfFSFileRead(f *os.File, b []byte) (int, error) {
	h := vfFSHandles[f]
	if h.node.dir {
		return 0, fs.ErrInvalid
	}
	if h.off >= int64(len(h.node.data)) {
		return 0, io.EOF
	}
	n := copy(b, h.node.data[h.off:])
	h.off += int64(n)
	return n, nil
}

func vfFSFileSeek(f *os.File, off int64, whence int) (int64, error) {
	h := vfFSHandles[f]
	switch whence {
	case io.SeekCurrent:
		off += h.off
	case io.SeekEnd:
		off += int64(len(h.node.data))
	}
	h.off = off
	return off, nil
}

func vfFSFileClose(f *os.File) error { return nil }

func vfFSList(f *os.File) []vfInfo {
	h := vfFSHandles[f]
	pre := h.name
	if pre != "" {
		pre += "/"
	}
	var out []vfInfo
	for _, k := range vfFSNames() {
		if b, ok := strings.CutPrefix(k, pre); ok && b != "" && !strings.Contains(b, "/") {
			out = append(out, vfInfo{k, vfFSNodes[k]})
		}
	}
	return out
}

func vfFSFileReaddir(f *os.File, n int) ([]os.FileInfo, error) {
	var out []os.FileInfo
	for _, i := range vfFSList(f) {
		out = append(out, i)
	}
	return out, nil
}

func vfFSFileReadDir(f *os.File, n int) ([]os.DirEntry, error) {
	var out []os.DirEntry
	for _, i := range vfFSList(f) {
		out = append(out, fs.FileInfoToDirEntry(i))
	}
	return out, nil
}

func vfFSMime(string) string { return "text/plain" }

func vfFSMkdirAll(string, os.FileMode) error { return nil }
