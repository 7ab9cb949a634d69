package main

import (
	"syscall"
	"unsafe"
)

// openWatch sees files being opened by this process or any other.
type openWatch struct {
	fd    int
	names map[int32]string
}

func newOpenWatch() *openWatch {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		panic(harnessError{"inotify: " + err.Error()})
	}
	return &openWatch{fd: fd, names: map[int32]string{}}
}

func (w *openWatch) add(path string) {
	wd, err := syscall.InotifyAddWatch(w.fd, path, syscall.IN_OPEN)
	if err != nil {
		panic(harnessError{"inotify: " + path + ": " + err.Error()})
	}
	w.names[int32(wd)] = path
}

// opened lists what was opened so far.
func (w *openWatch) opened() []string {
	seen := map[string]bool{}
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(w.fd, buf)
		if err != nil || n <= 0 {
			return sortedKeys(seen)
		}
		for o := 0; o+syscall.SizeofInotifyEvent <= n; {
			ev := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[o]))
			if name, ok := w.names[ev.Wd]; ok {
				seen[name] = true
			}
			o += syscall.SizeofInotifyEvent + int(ev.Len)
		}
	}
}

func (w *openWatch) close() { syscall.Close(w.fd) }
