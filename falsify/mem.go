package main

import (
	"syscall"
	"unsafe"
)

// guarded gives copies of byte strings in memory that ends exactly at an
// inaccessible page, so that reading past the end faults.
type guarded struct {
	mem  []byte
	size int
}

func newGuarded(size int) *guarded {
	pg := syscall.Getpagesize()
	size = (size + pg - 1) / pg * pg
	m, err := syscall.Mmap(-1, 0, size+pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(m[size:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	return &guarded{m, size}
}

func (g *guarded) put(b []byte) []byte {
	if len(b) > g.size {
		return append([]byte(nil), b...)
	}
	d := g.mem[g.size-len(b) : g.size : g.size]
	copy(d, b)
	return d
}

func overlap(a, b []byte) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	p, q := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return p < q+uintptr(len(b)) && q < p+uintptr(len(a))
}
